----------------------------- MODULE CalculusModel -----------------------------
(* An integrator feeding a differentiator started at the same value, and the    *)
(* other way around: both give back the input (telescoping).                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Starts, MaxSum
Values == {-2, 0, 1}
VARIABLES sum, prev, prev2, sum2, x, out, out2, hist
vars == <<sum, prev, prev2, sum2, x, out, out2, hist>>
Init ==
  /\ sum \in Starts /\ prev = sum /\ prev2 \in Starts /\ sum2 = prev2
  /\ x = 0 /\ out = 0 /\ out2 = 0 /\ hist = <<<<"start", sum>>, <<"start", prev2>>>>
Next == \E v \in Values :
  /\ sum' = sum + v /\ sum' \in -MaxSum..MaxSum
  /\ out' = sum' - prev /\ prev' = sum'
  /\ sum2' = sum2 + (v - prev2) /\ prev2' = v
  /\ out2' = sum2'
  /\ x' = v
  /\ hist' = Append(hist, <<"in", v>>)
Spec == Init /\ [][Next]_vars
DifferentiatesBack == out = x
IntegratesBack == hist # <<>> /\ Len(hist) > 2 => out2 = x
View == <<sum, prev, prev2, sum2, x, out, out2, Len(hist) > 2>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
