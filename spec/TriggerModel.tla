------------------------------ MODULE TriggerModel -----------------------------
(* A Schmitt trigger followed by both edge triggers, with the consequences of   *)
(* the definition in Trigger which a user relies on.  Also the source of the    *)
(* scripts: inputs 0..4 stand for below low, low, between, high, above high.    *)
EXTENDS Trigger, TLC, Json
VARIABLES on, was, x, rise, fall, hist
vars == <<on, was, x, rise, fall, hist>>
Init == on \in BOOLEAN /\ was = on /\ x = 2 /\ rise = FALSE /\ fall = FALSE /\ hist = <<<<"start", IF on THEN 1 ELSE 0>>>>
Next == \E i \in 0..4 :
  /\ x' = i
  /\ on' = Schmitt(on, i, 1, 3)
  /\ was' = on
  /\ rise' = Rising(on, on') /\ fall' = Falling(on, on')
  /\ hist' = Append(hist, <<"in", i>>)
Spec == Init /\ [][Next]_vars
\* Above the high threshold it is on, below the low one off, between it keeps
OnAbove == x > 3 => on
OffBelow == x < 1 => ~on
KeepsBetween == [][x' \in 1..3 => on' = on]_vars
EdgesMatch == rise = (~was /\ on) /\ fall = (was /\ ~on) /\ ~(rise /\ fall)
View == <<on, was, x, rise, fall>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
