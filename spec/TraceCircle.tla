------------------------------- MODULE TraceCircle -----------------------------
(* Validates traces recorded from unit_circle.hh.                               *)
EXTENDS TraceBase, Circle
\* Values for several n of one N
Values ==
  /\ IsEvent("circle")
  /\ Ok(LET c == Vs(Ev.cos)
            s == Vs(Ev.sin)
            r == Vs(Ev.rad)
        IN \A i \in 1..Len(Ev.n) :
             /\ FineCos(c[i], Ev.n[i], Ev.N, Ev.p) /\ Bounded(c[i], Ev.p)
             /\ FineSin(s[i], Ev.n[i], Ev.N, Ev.p) /\ Bounded(s[i], Ev.p)
             /\ FineRad(r[i], Ev.n[i], Ev.N, Ev.p))
  /\ Consume
Init == l = 1
Next == Values
Spec == Init /\ [][Next]_l
=============================================================================
