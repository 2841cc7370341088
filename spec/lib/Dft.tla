----------------------------------- MODULE Dft ---------------------------------
(* The discrete Fourier transform by its definition, and what is specified on   *)
(* top of it.  A signal is a record of two sequences, over 2^F.                 *)
EXTENDS RealFn
Cosines(N) == BSeq([n \in 1..N |-> CosTurn(n - 1, N)])
Sines(N) == BSeq([n \in 1..N |-> SinTurn(n - 1, N)])
Sig(re, im) == [re |-> re, im |-> im]
\* Bin k of the transform of x, of any length: sum of x[n] exp(sign 2 pi i n k/N); c and s are
\* the cosines and sines of N
BinOf(x, sign, k, c, s) ==
  <<Shr(DotMod(x.re, c, k) -- (sign ** DotMod(x.im, s, k)), F),
    Shr(DotMod(x.im, c, k) ++ (sign ** DotMod(x.re, s, k)), F)>>
Transform(x, sign, c, s) ==
  Sig(BSeq([k \in 1..Len(c) |-> BinOf(x, sign, k - 1, c, s)[1]]), BSeq([k \in 1..Len(c) |-> BinOf(x, sign, k - 1, c, s)[2]]))
\* Root of the energy
Norm2(x) == BSqrt(Dot(x.re, x.re) ++ Dot(x.im, x.im))
Log2Of(n) == ToInt(BLen(n))
\* The rounding that each of log2(N) stages may add to a bin
Tol(x, N, p) == Relative(Norm2(x), 4 + 4 * Log2Of(N), p)

--------------------------------------------------------------------------------
\* Zero padding in the frequency domain: the spectrum x of m bins moved to N > m bins.  Bins up
\* to (m-1)/2 stay, the upper ones move to the end, and the middle one of an even m is split.
Padded(x, m, N) ==
  LET h == (m - 1) \div 2
      at(q, k) == IF k <= h THEN q[k + 1]
                  ELSE IF k >= N - h THEN q[m - (N - k) + 1]
                  ELSE IF m % 2 = 0 /\ (2 * k = m \/ 2 * (N - k) = m)
                       THEN (IF 2 * k = m /\ 2 * (N - k) = m THEN q[(m \div 2) + 1] ELSE Shr(q[(m \div 2) + 1], 1))
                  ELSE 0
  IN Sig(BSeq([k \in 1..N |-> at(x.re, k - 1)]), BSeq([k \in 1..N |-> at(x.im, k - 1)]))
Over(x, m) == Sig(BSeq([k \in 1..Len(x.re) |-> Quot(x.re[k], m)]), BSeq([k \in 1..Len(x.re) |-> Quot(x.im[k], m)]))
Interpolated(x, m, N, cm, sm, cN, sN) == Over(Transform(Padded(Transform(x, -1, cm, sm), m, N), 1, cN, sN), m)
=============================================================================
