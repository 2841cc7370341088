------------------------------- MODULE TraceCordic -----------------------------
(* Validates traces recorded from cordic.hh.                                    *)
EXTENDS TraceBase, Cordic
Values ==
  /\ IsEvent("cordic")
  /\ Ok(\A i \in 1..Len(Ev.y) : Fine(Ev.r[i], Ev.y[i], Ev.x[i], Ev.b))
  /\ Consume
Init == l = 1
Next == Values
Spec == Init /\ [][Next]_l
=============================================================================
