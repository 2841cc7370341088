-------------------------------- MODULE TraceFft -------------------------------
(* Validates traces recorded from fft.hh and fdzp.hh.                           *)
EXTENDS TraceBase, Dft
In(c) == Sig(Vs(c.inre), Vs(c.inim))
\* Recorded bins are those listed in c.bins
Agree(r, i, e, tol) == BAbs(r -- e[1]) \preceq tol /\ BAbs(i -- e[2]) \preceq tol
\* nothing around the output was written, and the input is as before
Clean(c) == c.clean
Fft ==
  /\ IsEvent("fft")
  /\ Ok(LET co == Cosines(Ev.N)
            si == Sines(Ev.N)
        IN \A j \in 1..Len(Ev.cases) :
             LET c == Ev.cases[j]
                 x == In(c)
                 re == Vs(c.outre)
                 im == Vs(c.outim)
                 tol == Tol(x, Ev.N, Ev.p)
             IN /\ Clean(c) /\ Len(x.re) = Ev.N /\ Len(x.im) = Ev.N
                /\ Len(re) = Len(c.bins) /\ Len(im) = Len(c.bins)
                /\ \A k \in 1..Len(c.bins) : Agree(re[k], im[k], BinOf(x, c.sign, c.bins[k], co, si), tol))
  /\ Consume
\* The real transform: half of bins 0 and N/2
Half(e, k, N) == IF k = 0 \/ 2 * k = N THEN <<Shr(e[1], 1), Shr(e[2], 1)>> ELSE e
Real ==
  /\ IsEvent("rfft")
  /\ Ok(LET co == Cosines(Ev.N)
            si == Sines(Ev.N)
        IN \A j \in 1..Len(Ev.cases) :
             LET c == Ev.cases[j]
                 x == Sig(Vs(c.inre), BSeq([i \in 1..Ev.N |-> 0]))
                 re == Vs(c.outre)
                 im == Vs(c.outim)
                 tol == Tol(x, Ev.N, Ev.p)
             IN /\ Clean(c) /\ Len(x.re) = Ev.N
                /\ Len(re) = Len(c.bins) /\ Len(im) = Len(c.bins)
                /\ \A k \in 1..Len(c.bins) : Agree(re[k], im[k], Half(BinOf(x, -1, c.bins[k], co, si), c.bins[k], Ev.N), tol))
  /\ Consume
\* Zero padding from M to N.  The tolerance is that of two transforms, and of the energy per sample.
Pad ==
  /\ IsEvent("fdzp")
  /\ Ok(LET cM == Cosines(Ev.M)
            sM == Sines(Ev.M)
            cN == Cosines(Ev.N)
            sN == Sines(Ev.N)
        IN \A j \in 1..Len(Ev.cases) :
             LET c == Ev.cases[j]
                 x == In(c)
                 re == Vs(c.outre)
                 im == Vs(c.outim)
                 y == Interpolated(x, Ev.M, Ev.N, cM, sM, cN, sN)
                 tol == Tol(x, Ev.M, Ev.p) ++ Tol(x, Ev.N, Ev.p)
             IN /\ Clean(c) /\ Len(x.re) = Ev.M /\ Len(re) = Ev.N /\ Len(im) = Ev.N
                /\ \A k \in 1..Ev.N : Agree(re[k], im[k], <<y.re[k], y.im[k]>>, tol)
                /\ (Ev.N % Ev.M = 0) =>
                     \A k \in 0..(Ev.M - 1) :
                       Agree(re[k * (Ev.N \div Ev.M) + 1], im[k * (Ev.N \div Ev.M) + 1], <<x.re[k+1], x.im[k+1]>>, tol))
  /\ Consume
--------------------------------------------------------------------------------
\* Large transforms.  Of an input which is zero but for the samples at the given places
Turned(n, k, N) == ToInt((n ** k) %% N)
RECURSIVE SparseBin(_, _, _, _, _, _)
SparseBin(at, re, im, sign, k, j) ==
  IF j > Len(at) THEN <<0, 0>>
  ELSE LET t == Turned(at[j], k, Ev.N)
           c == CosTurn(t, Ev.N)
           s == sign ** SinTurn(t, Ev.N)
           r == SparseBin(at, re, im, sign, k, j + 1)
       IN <<r[1] ++ Shr((re[j] ** c) -- (im[j] ** s), F), r[2] ++ Shr((im[j] ** c) ++ (re[j] ** s), F)>>
Halved(e, k) == IF Ev.kind = "rfft" THEN Half(e, k, Ev.N) ELSE e
Sparse ==
  /\ IsEvent("sparse")
  /\ Ev.clean
  /\ Ok(LET re == Vs(Ev.inre)
            im == Vs(Ev.inim)
            r == Vs(Ev.outre)
            i == Vs(Ev.outim)
            tol == Tol(Sig(re, im), Ev.N, Ev.p)
        IN \A k \in 1..Len(Ev.bins) : Agree(r[k], i[k], Halved(SparseBin(Ev.at, re, im, Ev.sign, Ev.bins[k], 1), Ev.bins[k]), tol))
  /\ Consume
\* Of a tone of m periods: everything in a single bin, and interpolated it is the tone on the
\* finer grid.  The tone is given but for rounding.
ToneBin(a, b, k) ==
  CASE Ev.kind = "fft" -> IF (Ev.sign < 0 /\ k = Ev.m) \/ (Ev.sign > 0 /\ (k + Ev.m) % Ev.N = 0) THEN <<Ev.N ** a, Ev.N ** b>> ELSE <<0, 0>>
    [] Ev.kind = "rfft" -> IF k # Ev.m THEN <<0, 0>>
                           ELSE LET h == Ev.N \div 2 IN <<h ** a, IF k \in {0, h} THEN 0 ELSE h ** b>>
    [] Ev.kind = "pad" -> LET t == Turned(Ev.m, k, Ev.N)
                              c == CosTurn(t, Ev.N)
                              s == SinTurn(t, Ev.N)
                          IN <<Shr((a ** c) -- (b ** s), F), Shr((b ** c) ++ (a ** s), F)>>
Tone ==
  /\ IsEvent("tone")
  /\ Ev.clean
  /\ Ok(LET a == V(Ev.re)
            b == V(Ev.im)
            r == Vs(Ev.outre)
            i == Vs(Ev.outim)
            tol == Relative((IF Ev.kind = "pad" THEN 8 ELSE Ev.N) ** (BAbs(a) ++ BAbs(b)), 4 + 4 * Log2Of(Ev.N), Ev.p)
        IN \A k \in 1..Len(Ev.bins) : Agree(r[k], i[k], ToneBin(a, b, Ev.bins[k]), tol))
  /\ Consume
Init == l = 1
Next == Fft \/ Real \/ Pad \/ Sparse \/ Tone
Spec == Init /\ [][Next]_l
=============================================================================
