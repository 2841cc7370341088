--------------------------------- MODULE BipRing -------------------------------
(* The implementation of bip_buffer.hh: every sample is stored twice, Len0      *)
(* elements apart; the view starts at the smaller write position.               *)
EXTENDS Window, TLC, Json
CONSTANTS Len0, Values
VARIABLES buf, pos0, pos1,
          w,           \* the window it shall show
          hist
vars == <<buf, pos0, pos1, w, hist>>
Init ==
  /\ buf = [i \in 0..2*Len0-1 |-> 0] /\ pos0 = 0 /\ pos1 = Len0
  /\ w = Initial(Len0, 0) /\ hist = <<>>
Inc(p) == IF p + 1 >= 2*Len0 THEN 0 ELSE p + 1
Push(v) ==
  /\ buf' = [buf EXCEPT ![pos0] = v, ![pos1] = v]
  /\ pos0' = Inc(pos0) /\ pos1' = Inc(pos1)
  /\ w' = Slide(w, v)
  /\ hist' = Append(hist, <<"in", v>>)
Next == \E v \in Values : Push(v)
Spec == Init /\ [][Next]_vars
Start == IF pos0 < pos1 THEN pos0 ELSE pos1
Shown == [i \in 1..Len0 |-> buf[Start + i - 1]]
ShowsWindow == Shown = w
View == <<buf, pos0, pos1, w>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
