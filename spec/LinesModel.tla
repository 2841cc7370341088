------------------------------- MODULE LinesModel ------------------------------
(* Consequences of the definitions in Lines.tla over all small point sets: a    *)
(* line is found exactly, whatever a minority of the points does (two of six    *)
(* points for the repeated median, one of five for Theil-Sen), also with one    *)
(* abscissa repeated; and least squares satisfy the normal equations.           *)
EXTENDS Lines, TLC, Json
CONSTANTS X, Wild, Ys        \* the abscissas, the number of wild points, and their ordinates
VARIABLES a, b, y, bad, hist
Xs == X
vars == <<a, b, y, bad, hist>>
n == Len(X)
Init == a = 0 /\ b = 0 /\ y = <<>> /\ bad = {} /\ hist = <<>>
Pick ==
  /\ y = <<>>
  /\ a' \in -1..1 /\ b' \in -1..1
  /\ \E s \in {t \in SUBSET (1..n) : \E i, j \in 1..n : t = {i, j} /\ (Wild = 1 => i = j)} :
       /\ bad' = s
       /\ \E v \in [s -> Ys] : y' = [i \in 1..n |-> IF i \in s THEN v[i] ELSE a' + b' * X[i]]
  /\ hist' = [i \in 1..2*n |-> IF i % 2 = 1 THEN <<"x", X[(i+1) \div 2]>> ELSE <<"y", y'[i \div 2]>>]
Next == Pick
Spec == Init /\ [][Next]_vars
\* Slopes for which the median may lie on either side are one below by the floor
Near(u, v) == BAbs(u -- v) \preceq Len(X) * 8
Robust == y # <<>> =>
  /\ Near(RepeatedSlope(X, y), Shl(b, K))
  /\ Near(RepeatedIntercept(X, y), Shl(a, K))
  /\ Near(ResidualIntercept(X, y, RepeatedSlope(X, y)), Shl(a, K))
TheilSenRobust == y # <<>> =>
  /\ Near(TheilSenSlope(X, y), Shl(b, K))
  /\ Near(ResidualIntercept(X, y, TheilSenSlope(X, y)), Shl(a, K))
\* Residuals of the least-squares line through the mean point sum to zero, also weighted with x
Normal == y # <<>> =>
  LET var == N2Var(X)
      cov == N2Cov(X, y)
      \* n var residual_i
      res == [i \in 1..n |-> (n * y[i] - ToInt(BSum(y))) * var - cov * (n * X[i] - ToInt(BSum(X)))]
  IN BSum(res) = 0 /\ Dot(res, X) = 0
View == <<a, b, y, bad>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
