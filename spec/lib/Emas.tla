---------------------------------- MODULE Emas ---------------------------------
(* Exponential moving averages, computed with p significant bits.  Values are   *)
(* integers over 2^F; smoothing factors come with a bound of their error.       *)
EXTENDS RealFn
Given(a) == [a |-> a, e |-> 0]
OneOver(s, p) == [a |-> Frac(1, s), e |-> Relative(Frac(1, s), 1, p)]
\* The factor a for half power at n/N of the rate: the squared magnitude of the response
\* a/(1-(1-a)/z) is aa/(aa+2(1-a)d) with d = 1 - cos of the frequency, so aa = 2(1-a)d.
\* The cancellation in 1 - cos costs precision at low frequencies.
HalfPower(n, N, p) ==
  LET d == One -- CosTurn(n, N)
      s == Sqrt(Sqr(d) ++ (2 ** d))
      e == Roundoffs(16, p)                           \* of what is below the root
  IN [a |-> s -- d, e |-> Roundoffs(6, p) ++ BMin(Div(e, s ++ 1), Sqrt(2 ** e))]
\* The whole cascade of M loses half of the power where a single one loses 2^(1/M): at a
\* lower frequency, by this factor as long as they are small
\* 2^(1/M)
Root2(M) == ExpR(Ln2 // M)
Factor(M) == IF M = 1 THEN One ELSE Sqrt(Root2(M) -- One)
\* n over the factor, rounded to an integer, and whether the rounding is beyond doubt
Spread(n, M, p) ==
  LET q == Div(R(n), Factor(M))
      k == Shr(q ++ HalfR, F)
  IN [n |-> k, sure |-> BAbs(BAbs(q -- R(k)) -- HalfR) \succ Relative(q, 8, p)]
CascadeFactor(n, N, M, p) ==
  LET s == Spread(n, M, p) IN
  IF s.sure THEN HalfPower(s.n, N, p) ELSE [a |-> HalfR, e |-> One]
\* One step of one average: v has been computed with an error of up to ev, x with ex.
\* The roundings are those of either way to write it, v + a (x - v) or (1 - a) v + a x
Moved(v, x, f) == v ++ Mul(f.a, x -- v)
MovedErr(v, x, ev, ex, f, p) ==
  Mul(One -- f.a, ev) ++ Mul(f.a, ex) ++ Mul(f.e, BAbs(x -- v) ++ ev ++ ex)
  ++ Relative(BAbs(v) ++ Mul(f.a, BAbs(x)), 4, p) ++ 4
=============================================================================
