--------------------------------- MODULE Lines ---------------------------------
(* Estimators of a line through points (theil_sen.hh, repeated_median.hh,       *)
(* regression.hh).  A point set is given by the sequences x and y of equal      *)
(* length, integers of a common scale; slopes and intercepts have K more bits   *)
(* behind the point.                                                            *)
EXTENDS Big
K == 128
Ratio(a, b) == IF b \prec 0 THEN Shl(BNeg(a), K) // BNeg(b) ELSE Shl(a, K) // b
BQuot(a, n) == a // n
UpperMedian(s) == BSort(s)[Len(s) \div 2 + 1]
Indices(x) == [i \in 1..Len(x) |-> i]
Others(x, i) == SelectSeq(Indices(x), LAMBDA j : ~BEq(x[j], x[i]))
Later(x, i) == SelectSeq(Indices(x), LAMBDA j : j > i /\ ~BEq(x[j], x[i]))
SlopesTo(x, y, i, js) == [k \in 1..Len(js) |-> Ratio(y[js[k]] -- y[i], x[js[k]] -- x[i])]
RECURSIVE PairSlopes(_, _, _)
PairSlopes(x, y, i) == IF i > Len(x) THEN <<>> ELSE SlopesTo(x, y, i, Later(x, i)) \o PairSlopes(x, y, i + 1)
\* Residuals, at the scale of the slopes
Residuals(x, y, slope) == [i \in 1..Len(x) |-> Shl(y[i], K) -- (slope ** x[i])]

TheilSenSlope(x, y) == UpperMedian(PairSlopes(x, y, 1))
ResidualIntercept(x, y, slope) == UpperMedian(Residuals(x, y, slope))
RepeatedSlope(x, y) == UpperMedian([i \in 1..Len(x) |-> UpperMedian(SlopesTo(x, y, i, Others(x, i)))])
InterceptsTo(x, y, i, js) ==
  [k \in 1..Len(js) |-> Ratio((x[js[k]] ** y[i]) -- (x[i] ** y[js[k]]), x[js[k]] -- x[i])]
RepeatedIntercept(x, y) == UpperMedian([i \in 1..Len(x) |-> UpperMedian(InterceptsTo(x, y, i, Others(x, i)))])
\* Given more points than fit: of a capacity c, the repeated medians take the first c points, and
\* Theil-Sen takes the first of the pairs, as many as c points have, and of the residuals no more
\* than those
Pairs(c) == (c * (c - 1)) \div 2
Fitting(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
TheilSenSlopeWithin(x, y, c) == UpperMedian(Fitting(PairSlopes(x, y, 1), Pairs(c)))
ResidualInterceptWithin(x, y, slope, c) == UpperMedian(Fitting(Residuals(x, y, slope), Pairs(c)))

\* Least squares.  n^2 times variance and covariance
N2Var(x) == (Len(x) ** Dot(x, x)) -- (BSum(x) ** BSum(x))
N2Cov(x, y) == (Len(x) ** Dot(x, y)) -- (BSum(x) ** BSum(y))
LeastSlope(x, y) == Ratio(N2Cov(x, y), N2Var(x))
=============================================================================
