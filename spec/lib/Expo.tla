---------------------------------- MODULE Expo ---------------------------------
(* Scaling by powers of two, powers of ten and decibels, computed with p        *)
(* significant bits.  Values are integers over 2^k.                             *)
EXTENDS RealFn
\* x times 2^n, exactly
Scaled(x, n, r) == BEq(r, ShiftBy(x, n))
\* 10^x with k bits behind the point; x over 2^F
Ten(x, k) == ExpAt(Mul(x, Ln10), k)
\* an error proportional to one plus the magnitude of x; the reduction of the argument
\* is exact if the compiler leaves it as it is written (strict)
Cond(x) == ToInt(Shr(BAbs(x), F)) + 2
TenOk(r, x, k, p, strict) ==
  LET e == Ten(x, k) IN Near(r, e, Relative(e, IF strict THEN 6 ELSE 10 * Cond(x), p))
\* 10^(x/10), where the tenth is rounded twice and the power weighs that with x/10 * ln(10)
TenthOk(r, x, k, p, strict) ==
  LET t == Quot(x, 10)
      e == Ten(t, k)
  IN Near(r, e, Relative(e, IF strict THEN 6 + 5 * Cond(t) ELSE 10 * Cond(t), p))
\* Ten times the decimal logarithm of a positive number v over 2^k
Db(v, k) == Div(10 ** LnAt(v, k), Ln10)
\* each of ten square roots doubles the weight of a rounding in what follows, and
\* the logarithm is 10/ln(10) = 4.34 times 1024 times that of the last one
DbOk(r, v, k, p, inner) ==
  Near(r, Db(v, k), IF inner THEN Roundoffs(17789, p) ELSE Frac(1, 10000))
=============================================================================
