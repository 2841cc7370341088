-------------------------------- MODULE TraceAtan ------------------------------
(* Validates traces recorded from atan2.hh.                                     *)
EXTENDS TraceBase, ArcTan
K(p) == IF p = 24 THEN 149 ELSE 1074             \* every value is a multiple of 2^-K
\* Arc tangent of x and of -x
One1 ==
  /\ IsEvent("atan")
  /\ Ok(LET x == FltSeqAt(Ev.x, K(Ev.p))
            r == Vs(Ev.r)
            m == Vs(Ev.m)
        IN \A i \in 1..Len(x) : LET e == ArcTanAt(x[i], K(Ev.p)) IN
             /\ Near(r[i], e, Tol(e, Ev.p))
             /\ BEq(m[i], BNeg(r[i]))
             /\ BAbs(r[i]) \preceq HalfPi ++ Roundoffs(2, Ev.p))
  /\ Consume
\* signed: compiled such that the sign of zero is kept
Two2 ==
  /\ IsEvent("atan2")
  /\ Ok(LET x == FltSeqAt(Ev.x, K(Ev.p))
            y == FltSeqAt(Ev.y, K(Ev.p))
            r == Vs(Ev.r)
        IN \A i \in 1..Len(x) : LET e == Angle2(y[i], x[i], Ev.neg[i] = 1) IN
             /\ \/ Near(r[i], e, Tol(e, Ev.p))
                \/ ~Ev.signed /\ BEq(y[i], 0) /\ Near(BNeg(r[i]), e, Tol(e, Ev.p))
             /\ (BEq(y[i], 0) /\ x[i] \succeq 0) => BEq(r[i], 0))
  /\ Consume
Init == l = 1
Next == One1 \/ Two2
Spec == Init /\ [][Next]_l
=============================================================================
