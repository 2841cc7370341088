---------------------------------- MODULE Splines ------------------------------
(* Interpolating cubic splines.  Values are integers over 2^F.                  *)
EXTENDS RealFn
\* Second differences of the knot values
Bend(Y, i) == (Y[i + 1] -- (2 ** Y[i])) ++ Y[i - 1]
\* The natural spline of knots of distance one.  The second derivatives are twice the numbers c_i
\* with c_(i-1) + 4c_i + c_(i+1) = 3 Bend(Y, i) inside and zero at both ends: forward elimination,
\* <<u_i, z_i>> with c_i = z_i - u_i c_(i+1)
RECURSIVE Eliminate(_, _, _)
Eliminate(Y, i, acc) ==
  IF i >= Len(Y) THEN acc
  ELSE LET p == acc[i - 1]
           d == R(4) -- p[1]
       IN Eliminate(Y, i + 1, Append(acc, << Div(One, d), Div((3 ** Bend(Y, i)) -- p[2], d) >>))
RECURSIVE Substitute(_, _, _)
Substitute(e, i, acc) ==                               \* acc: c_(i+1), ...
  IF i = 0 THEN acc ELSE Substitute(e, i - 1, << e[i][2] -- Mul(e[i][1], acc[1]) >> \o acc)
Curvature(Y) == LET e == Eliminate(Y, 2, << << 0, 0 >> >>) IN BSeq(Substitute(e, Len(Y) - 1, << 0 >>))
\* Piece k (from 1) as coefficients of 1, t, t^2, t^3
Piece(Y, c, k) ==
  << Y[k], (Y[k + 1] -- Y[k]) -- (((2 ** c[k]) ++ c[k + 1]) // 3), c[k], (c[k + 1] -- c[k]) // 3 >>
Cubic(q, t) == q[1] ++ Mul(t, q[2] ++ Mul(t, q[3] ++ Mul(t, q[4])))
Slope(q, t) == q[2] ++ Mul(t, (2 ** q[3]) ++ (3 ** Mul(t, q[4])))
\* Number of the piece for the position x, counted in knots from 0: the outermost ones outside
Number(x, n) == LET k == ToInt(BMax(BMin(Shr(x, F), n - 2), 0)) IN k + 1
Natural(Y, c, x) == LET k == Number(x, Len(Y)) IN Cubic(Piece(Y, c, k), x -- R(k - 1))
\* Error of computing it with p significant bits, where all values are up to m and the position
\* is known to within ex
NaturalErr(Y, c, m, x, ex, p) ==
  LET k == Number(x, Len(Y))
      t == BAbs(x -- R(k - 1))
      s == Slope(Piece(Y, c, k), x -- R(k - 1))
      w == One ++ t ++ Sqr(t) ++ Mul(t, Sqr(t))
  IN Mul(BAbs(s), ex) ++ Mul(Relative(m, 24, p) ++ Mul(m, ex), w)
\* Positions in knots, and their errors
Position(x, x0, dx) == Div(x -- x0, dx)
PositionErr(x, x0, dx, p) == Relative(Position(x, x0, dx), 4, p)

--------------------------------------------------------------------------------
\* Piecewise cubics with given slopes: values y0, y1 and slopes m0, m1 at both ends of an interval
\* of width h, at the fraction t of it
HermiteCubic(y0, y1, m0, m1, h, t) ==
  LET a == Mul(h, m0)
      b == Mul(h, m1)
      d == y1 -- y0
  IN Cubic(<< y0, a, (3 ** d) -- (2 ** a) -- b, (a ++ b) -- (2 ** d) >>, t)
Quotient(X, Y, i) == Div(Y[i + 1] -- Y[i], X[i + 1] -- X[i])
SlopeAt(X, Y, i) ==
  IF i = 1 THEN Quotient(X, Y, 1) ELSE IF i = Len(X) THEN Quotient(X, Y, i - 1)
  ELSE Shr(Quotient(X, Y, i - 1) ++ Quotient(X, Y, i), 1)
\* The interval of x: the outermost ones outside
RECURSIVE IntervalFrom(_, _, _)
IntervalFrom(X, x, i) == IF i >= Len(X) - 1 \/ x \preceq X[i + 1] THEN i ELSE IntervalFrom(X, x, i + 1)
Interval(X, x) == IntervalFrom(X, x, 1)
Hermite(X, Y, x) ==
  LET k == Interval(X, x)
      h == X[k + 1] -- X[k]
  IN HermiteCubic(Y[k], Y[k + 1], SlopeAt(X, Y, k), SlopeAt(X, Y, k + 1), h, Div(x -- X[k], h))
\* What is added up: both values and both slopes times the width
HermiteMag(X, Y, k) ==
  LET h == X[k + 1] -- X[k]
      y == BMax(BAbs(Y[k]), BAbs(Y[k + 1]))
      Q(i) == IF i < 1 \/ i >= Len(X) THEN 0 ELSE Div(BAbs(Y[i + 1]) ++ BAbs(Y[i]), X[i + 1] -- X[i])
  IN y ++ Mul(h, Q(k - 1) ++ Q(k) ++ Q(k + 1))
\* Where the position is in doubt by et the cubic might be the one of the next interval; their
\* values and slopes agree in between
HermiteErr(X, Y, x, et, p) ==
  LET k == Interval(X, x)
      t == BAbs(Div(x -- X[k], X[k + 1] -- X[k]))
      w == One ++ t ++ Sqr(t) ++ Mul(t, Sqr(t))
      M(i) == IF i < 1 \/ i >= Len(X) THEN 0 ELSE HermiteMag(X, Y, i)
  IN Mul(HermiteMag(X, Y, k), Mul(Relative(One, 64, p) ++ (8 ** et), w))
     ++ Mul(M(k - 1) ++ M(k + 1), 16 ** Sqr(et)) ++ 64
=============================================================================
