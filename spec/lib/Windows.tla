--------------------------------- MODULE Windows -------------------------------
(* Window functions of n in 0..N-1 and ideal impulse responses, over 2^F.       *)
EXTENDS RealFn
\* 2n/(N-1) - 1, from -1 to 1
Centered(n, N) == Frac(2 * n - (N - 1), N - 1)
Rect(n, N) == IF n >= 0 /\ n < N THEN One ELSE 0
Cosines(a0, a1, a2, n, N) ==
  (a0 -- Mul(a1, CosTurn(n, N - 1))) ++ Mul(a2, CosTurn(2 * n, N - 1))
Hann(n, N) == Cosines(HalfR, HalfR, 0, n, N)
Hamming(n, N) == Cosines(Frac(54, 100), Frac(46, 100), 0, n, N)
Blackman3(a0, a1, a2, n, N) == Cosines(a0, a1, a2, n, N)
Blackman1(a, n, N) == Cosines(Shr(One -- a, 1), HalfR, Shr(a, 1), n, N)
BlackmanExact(n, N) == Cosines(Frac(7938, 18608), Frac(9240, 18608), Frac(1430, 18608), n, N)
Lanczos(n, N) == Sinc(Centered(n, N))
GaussArg(o, n, N) == LET z == Div(Centered(n, N), o) IN Shr(Sqr(z), 1)
Gauss(o, n, N) == ExpR(BNeg(GaussArg(o, n, N)))
Kaiser(a, n, N) ==
  LET pa == Mul(Pi, a) IN
  Div(BesselI0(Mul(pa, Sqrt(One -- Sqr(Centered(n, N))))), BesselI0(pa))

--------------------------------------------------------------------------------
\* Half of 2n-(N-1): the distance from the center
Off(n, N) == Frac(2 * n - (N - 1), 2)
\* Ideal low pass with cutoff c (as a fraction of the rate)
Low(c, n, N) == LET f == 2 ** c IN Mul(f, Sinc(Mul(f, Off(n, N))))
High(c, n, N) == Sinc(Off(n, N)) -- Low(c, n, N)
Band(c0, c1, n, N) == Low(c1, n, N) -- Low(c0, n, N)
\* Ideal transformer, (1 - cos(pi x))/(pi x)
Hilbert(n, N) ==
  LET t == 2 * n - (N - 1) IN
  IF t = 0 THEN 0 ELSE Div(One -- CosTurn(t, 4), Mul(Pi, Off(n, N)))
=============================================================================
