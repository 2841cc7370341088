-------------------------------- MODULE Helpers --------------------------------
(* The little helpers and the constants, computed with p significant bits (p =  *)
(* 0: integers).  Values are integers over 2^k.                                 *)
EXTENDS RealFn
Signum(v) == IF v \prec 0 THEN -1 ELSE IF v \succ 0 THEN 1 ELSE 0
Clamp(x, a, b) == IF x \prec a THEN a ELSE IF x \succ b THEN b ELSE x
\* (1-x)a + xb; a and b over 2^k, x over 2^F
Lerp(a, b, x) == ((One -- x) ** a) ++ (x ** b)         \* over 2^(F+k)
LerpTol(a, b, x, p) == Shr(4 ** (((One ++ BAbs(x)) ** BAbs(a)) ++ (BAbs(x) ** BAbs(b))), p)
LerpOk(r, a, b, x, p) ==
  IF BEq(x, 0) THEN BEq(r, a) ELSE IF BEq(x, One) THEN BEq(r, b)
  ELSE Near(Shl(r, F), Lerp(a, b, x), LerpTol(a, b, x, p))
\* Density of the normal distribution; x, m and s are over 2^F, s > 0
Density(x, m, s) == LET z == Div(x -- m, s) IN
  Div(ExpR(BNeg(Shr(Sqr(z), 1))), Mul(Sqrt(TwoPi), s))
DensityOk(r, x, m, s, p) ==
  LET z == Div(x -- m, s)
      e == Density(x, m, s)
  IN Near(r, e, Relative(e, 8 ** (2 ++ Shr(Sqr(z), F)), p) ++ Shl(1, F - 120))
SincOk(r, x, p) == Near(r, Sinc(x), Roundoffs(4, p))
Delta(x) == IF BEq(x, 0) THEN 1 ELSE 0

\* v is e > 0 rounded to p significant bits
Rounded(v, e, p) == BAbs(v -- e) \preceq Shl(1, ToInt(BLen(v)) - p - 1) ++ 1
Constants ==
  << Shr(Pi, 3), Shr(Pi, 2), HalfPi, Pi, TwoPi, 4 ** Pi, Sqrt(Pi), Sqrt(TwoPi), Sqrt(HalfR) >>
=============================================================================
