--------------------------------- MODULE Resample ------------------------------
(* Interpolation of sampled signals with a windowed low pass of T taps, which   *)
(* is tabulated O times per sample and interpolated by a natural spline.        *)
EXTENDS Splines, Windows
\* The table and its error.  f is the cutoff as a fraction of half the rate.
Knot(T, O, f, a, n) == Mul(Mul(f, Sinc(Mul(f, Frac(2 * n - (T - 1) * O, 2 * O)))), Kaiser(a, n, T * O))
Kernel(T, O, rate, cutoff, a, p) ==
  LET f == Div(2 ** cutoff, rate)
      y == BSeq([i \in 1..(T * O) |-> Knot(T, O, f, a, i - 1)])
  IN [T |-> T, O |-> O, y |-> y, c |-> Curvature(y), m |-> BMaxAbs(y),
      e |-> Relative(f, 20, p) ++ Mul(Relative(f, 12, p), One ++ Sqr(a))]
\* The response at the distance k, in samples from the first tap
Response(K, k) == Natural(K.y, K.c, K.O ** k)
\* where k is known to within e
ResponseErr(K, k, e, p) ==
  LET x == K.O ** k
      t == BAbs(x -- R(Number(x, Len(K.y)) - 1))
      w == One ++ t ++ Sqr(t) ++ Mul(t, Sqr(t))
  IN NaturalErr(K.y, K.c, K.m, x, K.O ** (e ++ Relative(R(1) ++ BAbs(k), 4, p)), p) ++ (8 ** Mul(K.e, w))
\* What the samples x, from number s on, add up to, the first tap being at position k of them; and its error
Weighted(K, k, x, s) == LET w == BSeq([j \in 1..K.T |-> Response(K, k ++ R(j - 1))]) IN
  Shr(Dot(w, SubSeq(x, s, s + K.T - 1)), F)
WeightedErr(K, k, x, s, e, p) ==
  LET g == BSeq([j \in 1..K.T |-> LET d == k ++ R(j - 1) IN ResponseErr(K, d, e, p) ++ Relative(Response(K, d), K.T + 2, p)])
      v == BSeq([j \in 1..K.T |-> BAbs(x[s + j - 1])])
  IN Shr(Dot(g, v), F) ++ 16

--------------------------------------------------------------------------------
\* Blocks: result i (from 0) is of position i*rate/(rate+diff); the samples around it are those from
\* the nearest one on, or none if there are not enough
Ratio(rate, diff) == Div(rate, rate ++ diff)
Place(ratio, i) == i ** ratio
Around(x) == ToInt(Shr(x ++ HalfR, F))
\* where that is in doubt by e: all that are possible
Possible(x, e) == Around(x -- e)..Around(x ++ e)
Delay(T) == (T - 1) \div 2

--------------------------------------------------------------------------------
\* Streams: d is the offset of the next result with respect to the newest sample, e its error
HalfUp(d, e) == (HalfR -- e) \preceq d                  \* maybe more than a half
HalfDown(d, e) == d \preceq (e -- HalfR)                \* maybe less than minus a half
NotUp(d, e) == d \preceq (HalfR ++ e)
NotDown(d, e) == (BNeg(HalfR) -- e) \preceq d
=============================================================================
