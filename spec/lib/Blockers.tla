-------------------------------- MODULE Blockers -------------------------------
(* The DC blocker and the normalizers built of it, computed with p significant  *)
(* bits.  Values are integers over 2^F.                                         *)
EXTENDS Emas
\* Factor of the previous output: none before it is set
Leak(s) == IF s = 0 THEN 0 ELSE Frac(s - 1, s)
Gain(s) == Shr(One ++ Leak(s), 1)
\* State [x, y] has been computed with an error of up to e in y
Blocked(s, x1, y1, x) == Mul(Gain(s), x -- x1) ++ Mul(Leak(s), y1)
BlockedErr(s, x1, y1, x, e, p) ==
  Mul(Leak(s), e) ++ Relative(Mul(Gain(s), BAbs(x) ++ BAbs(x1)), 6, p) ++ Relative(Mul(Leak(s), y1), 4, p) ++ 4
\* Mean power of the blocked signal: an average over s samples that starts at one half
Averaged(s, m, y) == Moved(m, Sqr(y), OneOver(s, 53))
AveragedErr(s, m, y, em, ey, p) ==
  MovedErr(m, Sqr(y), em, Relative(Sqr(y), 2, p) ++ Mul(2 ** BAbs(y) ++ ey, ey), OneOver(s, p), p)
\* y over the root of twice m; ey and em their errors, em below m
Normal(y, m) == Div(y, Sqrt(2 ** m))
NormalErr(y, m, ey, em, p) ==
  LET a == Sqrt(2 ** (m -- em))                       \* at least this
  IN Div(ey, a) ++ Mul(BAbs(Div(y, a)), Div(em, m -- em)) ++ Relative(Div(y, a), 8, p) ++ 4
Sound(m, em) == Shl(em, 6) \prec m
=============================================================================
