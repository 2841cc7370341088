------------------------------- MODULE TraceSpline -----------------------------
(* Validates traces recorded from spline.hh.                                    *)
EXTENDS TraceBase, Splines
\* The parts of complex values are recorded one after the other
NaturalEv ==
  /\ IsEvent("natural")
  /\ Ok(LET Y == Vs(Ev.y)
            c == Curvature(Y)
            m == BMaxAbs(Y)
            x0 == V(Ev.x0)
            dx == V(Ev.dx)
            x == Vs(Ev.x)
            r == Vs(Ev.r)
        IN /\ Len(r) = Len(x)
           /\ \A i \in 1..Len(x) : LET t == Position(x[i], x0, dx) IN
                Near(r[i], Natural(Y, c, t), NaturalErr(Y, c, m, t, PositionErr(x[i], x0, dx, Ev.p), Ev.p)))
  /\ Consume
HermiteEv ==
  /\ IsEvent("hermite")
  /\ Ok(LET Y == Vs(Ev.y)
            X == Vs(Ev.at)
            x == Vs(Ev.x)
            r == Vs(Ev.r)
        IN /\ Len(r) = Len(x)
           /\ \A i \in 1..Len(x) : Near(r[i], Hermite(X, Y, x[i]), HermiteErr(X, Y, x[i], Relative(One, 2, Ev.p), Ev.p)))
  /\ Consume
UniformEv ==
  /\ IsEvent("uniform")
  /\ Ok(LET Y == Vs(Ev.y)
            X == BSeq([i \in 1..Len(Y) |-> R(i - 1)])
            x0 == IF Has("x0") THEN V(Ev.x0) ELSE 0
            dx == IF Has("dx") THEN V(Ev.dx) ELSE One
            x == Vs(Ev.x)
            r == Vs(Ev.r)
        IN /\ Len(r) = Len(x)
           /\ \A i \in 1..Len(x) : LET t == Position(x[i], x0, dx) IN
                Near(r[i], Hermite(X, Y, t), HermiteErr(X, Y, t, PositionErr(x[i], x0, dx, Ev.p), Ev.p)))
  /\ Consume
Init == l = 1
Next == NaturalEv \/ HermiteEv \/ UniformEv
Spec == Init /\ [][Next]_l
=============================================================================
