-------------------------------- MODULE SplineModel ----------------------------
(* The specified splines have what defines them, for all small knot values: the *)
(* natural one passes through the knots with continuous slope and curvature and *)
(* straight ends; the Hermite one has the prescribed values and slopes on both  *)
(* sides of every knot, and both reproduce straight lines.                      *)
EXTENDS Splines, TLC
CONSTANTS Values, Lengths
VARIABLES y, gap
vars == <<y, gap>>
Init == \E n \in Lengths : y \in [1..n -> Values] /\ gap \in [1..n -> {1, 3}]
Spec == Init /\ [][UNCHANGED vars]_vars
Tiny == Shl(1, F - 100)
N == Len(y)
Y == BSeq([i \in 1..N |-> R(y[i])])
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE gap[i] + Total(i - 1)
X == BSeq([i \in 1..N |-> R(Total(i) - 5)])
U == BSeq([i \in 1..N |-> R(i - 1)])
Bent(q, t) == q[3] ++ (3 ** Mul(t, q[4]))                \* half of the second derivative
\* once for each vector of values
Once == \A i \in 1..N : gap[i] = 1
NaturalRight == Once =>
  LET c == Curvature(Y) IN
  /\ \A k \in 1..(N - 1) : LET q == Piece(Y, c, k) IN Near(Cubic(q, 0), Y[k], Tiny) /\ Near(Cubic(q, One), Y[k + 1], Tiny)
  /\ \A k \in 1..(N - 2) : LET q == Piece(Y, c, k)
                               r == Piece(Y, c, k + 1)
                           IN Near(Slope(q, One), Slope(r, 0), Tiny) /\ Near(Bent(q, One), Bent(r, 0), Tiny)
  /\ Near(Bent(Piece(Y, c, 1), 0), 0, Tiny)
  /\ Near(Bent(Piece(Y, c, N - 1), One), 0, Tiny)
  /\ (\A i \in 2..(N - 1) : y[i + 1] - y[i] = y[i] - y[i - 1]) =>
       \A x \in -4..16 : Near(Natural(Y, c, Frac(x, 2)), Y[1] ++ Mul(Frac(x, 2), R(y[2] - y[1])), Tiny)
Eps == Shl(1, F - 40)
HermiteRight == N >= 3 =>
  /\ \A i \in 1..N : Near(Hermite(X, Y, X[i]), Y[i], Tiny)
  \* slopes on both sides of each point, by differences
  /\ \A i \in 1..N : LET m == SlopeAt(X, Y, i) IN
       /\ Near(Hermite(X, Y, X[i] ++ Eps) -- Y[i], Mul(m, Eps), Shl(1, F - 70))
       /\ Near(Y[i] -- Hermite(X, Y, X[i] -- Eps), Mul(m, Eps), Shl(1, F - 70))
  /\ (\A i \in 2..(N - 1) : (y[i + 1] - y[i]) * gap[i] = (y[i] - y[i - 1]) * gap[i + 1]) =>
       \A x \in -4..16 : Near(Hermite(X, Y, X[1] ++ Frac(x, 2)), Y[1] ++ Mul(Frac(x, 2), Frac(y[2] - y[1], gap[2])), Tiny)
=============================================================================
