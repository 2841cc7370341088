-------------------------------- MODULE DelayRing ------------------------------
(* The implementation of delay.hh: a ring which is read before it is            *)
(* overwritten.                                                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, Values, Init0
VARIABLES buf, pos, out, hist
vars == <<buf, pos, out, hist>>
Init == buf = [i \in 0..Len0-1 |-> Init0] /\ pos = 0 /\ out = Init0 /\ hist = <<>>
Next == \E v \in Values :
  /\ out' = buf[pos]
  /\ buf' = [buf EXCEPT ![pos] = v]
  /\ pos' = IF pos + 1 >= Len0 THEN 0 ELSE pos + 1
  /\ hist' = Append(hist, <<"in", v>>)
Spec == Init /\ [][Next]_vars
Win == [i \in 1..Len0 |-> buf[(pos + i - 1) % Len0]]
A == INSTANCE Delay WITH w <- Win
Refines == A!Spec
TypeOK == pos \in 0..Len0-1
View == <<buf, pos, out>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
