------------------------------- MODULE TraceLines ------------------------------
(* Validates traces recorded from theil_sen.hh, repeated_median.hh and          *)
(* regression.hh.                                                               *)
EXTENDS TraceBase, Lines
S == 64               \* bits behind the point of the points' coordinates
Near(a, b, tol) == BAbs(a -- b) \preceq tol
Eps(a, c) == Shr(BAbs(a) ** c, Ev.p) ++ 4

\* What the recorded slope and intercept imply
Implied(slope, yint) ==
  \A i \in DOMAIN Ev.at :
       LET m == Shr(FltAt(Ev.at[i], K) ** slope, K) IN
       Near(FltAt(Ev.val[i], K), m ++ yint, Eps(BAbs(m) ++ BAbs(yint), 6))
\* s: the defined slope; t: the defined intercept for it, scale S+K; ct: its tolerance
Result(s, t, ct) ==
  LET slope == FltAt(Ev.slope, K)
      yint == FltAt(Ev.yint, K) IN
  /\ Near(slope, s, Eps(s, 8))
  /\ Near(yint, Shr(t, S), ct)
  /\ Implied(slope, yint)
  /\ Has("xint") =>
       LET e == Shr(FltAt(Ev.xint, K) ** slope, K) ++ yint IN BAbs(e) \preceq Eps(yint, 8)
\* The points; where a capacity is given and they are more, the first ones
First(f(_, _)) == LET x == Fitting(FltSeqAt(Ev.x, S), Ev.cap)
                      y == Fitting(FltSeqAt(Ev.y, S), Ev.cap) IN f(x, y)
XY(f(_, _)) == LET x == FltSeqAt(Ev.x, S)
                   y == FltSeqAt(Ev.y, S) IN f(x, y)
\* Rounding of a residual
ResTol(x, y, s) == Eps(Shl(BMaxAbs(y), K - S) ++ Shr(BMaxAbs(x) ** BAbs(s), S), 16)
TheilSen(x, y) == LET s == TheilSenSlope(x, y) IN Result(s, ResidualIntercept(x, y, s), ResTol(x, y, s))
TheilSenWithin(x, y) ==
  LET s == TheilSenSlopeWithin(x, y, Ev.cap) IN Result(s, ResidualInterceptWithin(x, y, s, Ev.cap), ResTol(x, y, s))
Repeated2(x, y) == LET s == RepeatedSlope(x, y) IN Result(s, ResidualIntercept(x, y, s), ResTol(x, y, s))
\* An intercept from two points is off by the rounding of the products over their distance
MinDistance(x) == LET t == BSort(x) IN
  BMinOf([i \in 1..Len(t)-1 |-> IF BEq(t[i], t[i+1]) THEN Shl(1, 100) ELSE t[i+1] -- t[i]])
Repeated1(x, y) ==
  LET s == RepeatedSlope(x, y)
      t == RepeatedIntercept(x, y)
      tol == IF Ev.integral THEN 0 ELSE BMaxAbs(x) ** BMaxAbs(y)
  IN Result(s, Shl(t, 0), Eps(Ratio(tol, MinDistance(x)) // Shl(1, S), 8) ++ Eps(Shr(t, S), 8))

Theil == IsEvent("theil") /\ Ev.kept /\ Ok(IF Has("cap") THEN XY(TheilSenWithin) ELSE XY(TheilSen)) /\ Consume
Rm1 == IsEvent("rm1") /\ Ev.kept /\ Ok(IF Has("cap") THEN First(Repeated1) ELSE XY(Repeated1)) /\ Consume
Rm2 == IsEvent("rm2") /\ Ev.kept /\ Ok(IF Has("cap") THEN First(Repeated2) ELSE XY(Repeated2)) /\ Consume

\* Least squares: the errors of variance and covariance are some roundings of the largest
\* products, n of them
Least(x, y) ==
  LET n == Len(x)
      mx == BMaxAbs(x)
      my == BMaxAbs(y)
      var == N2Var(x) // n                      \* scale 2S
      cov == BQuot(N2Cov(x, y), n)
      s == LeastSlope(x, y)
      ecov == Shr(((8 * n) ** n) ** (mx ** my), Ev.p)
      evar == Shr(((8 * n) ** n) ** (mx ** mx), Ev.p)
      es == Ratio(ecov ++ Shr(evar ** BAbs(s), K), var) ++ 4
      t == BQuot(Shl(BSum(y), K) -- (s ** BSum(x)), n)   \* scale S+K
      et == Shr(Shl((8 * n) ** my, K) ++ ((8 * n) ** (mx ** BAbs(s))), Ev.p + S) ++ Shr(es ** mx, S) ++ 4
      slope == FltAt(Ev.slope, K)
      yint == FltAt(Ev.yint, K)
  IN /\ evar ** 4 \prec var                       \* the points are not hopeless
     /\ Near(slope, s, es)
     /\ Near(yint, Shr(t, S), et)
     /\ (4 ** ecov) \prec BAbs(cov) =>
          \* intersection with the abscissa: off by the relative error of the slope
          LET xi == Ratio(BNeg(t), s)            \* scale S+K
              rel == Ratio(ecov, BAbs(cov)) ++ Ratio(evar, var) ++ Shr(Shl(16 * n, K), Ev.p)
          IN Near(FltAt(Ev.xint, K), Shr(xi, S),
                  Shr((Shl(mx, K - S) ++ Shr(BAbs(xi), S)) ** (2 ** rel), K) ++ 4)
     /\ Implied(slope, yint)
Reg == IsEvent("reg") /\ Ev.kept /\ Ok(XY(Least)) /\ Consume
\* Equally spaced abscissas
RegU ==
  /\ IsEvent("regu") /\ Ev.kept
  /\ Ok(LET y == FltSeqAt(Ev.y, S)
            x == [i \in 1..Len(y) |-> FltAt(Ev.x0, S) ++ ((i - 1) ** FltAt(Ev.dx, S))]
        IN Least(x, y))
  /\ Consume
Zero ==
  /\ IsEvent("zero")
  /\ Ok(BEq(FltAt(Ev.slope, K), 0) /\ BEq(FltAt(Ev.yint, K), 0) /\ BEq(FltAt(Ev.xint, K), 0))
  /\ Ok(\A i \in DOMAIN Ev.val : BEq(FltAt(Ev.val[i], K), 0))
  /\ Consume
Init == l = 1
Next == Theil \/ Rm1 \/ Rm2 \/ Reg \/ RegU \/ Zero
Spec == Init /\ [][Next]_l
=============================================================================
