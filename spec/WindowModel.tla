------------------------------ MODULE WindowModel ------------------------------
(* The windows and prototypes as the code evaluates them -- reduced fractions   *)
(* of a turn, a power series cut off -- with exact arithmetic, against the      *)
(* formulas, for all lengths up to Top.                                         *)
EXTENDS Windows, TLC
CONSTANT Top
VARIABLES n, N
Init == N \in 2..Top /\ n = 0
Next == n < N - 1 /\ n' = n + 1 /\ UNCHANGED N
Spec == Init /\ [][Next]_<<n, N>>
Eps == Shl(1, F - 60)
\* C's remainder
Rem(a, b) == IF a >= 0 THEN a % b ELSE 0 - ((0 - a) % b)

\* Symmetry, the ends, and the center
Symmetric ==
  LET ws == << <<Hann(n, N), Hann(N-1-n, N)>>, <<Hamming(n, N), Hamming(N-1-n, N)>>, <<BlackmanExact(n, N), BlackmanExact(N-1-n, N)>>,
            <<Lanczos(n, N), Lanczos(N-1-n, N)>>, <<Gauss(HalfR, n, N), Gauss(HalfR, N-1-n, N)>>, <<Kaiser(Two, n, N), Kaiser(Two, N-1-n, N)>> >>
  IN \A i \in 1..Len(ws) : Near(ws[i][1], ws[i][2], Eps)
Center == (2 * n = N - 1) =>
    /\ Near(Hann(n, N), One, Eps) /\ Near(Hamming(n, N), One, Eps) /\ Near(BlackmanExact(n, N), One, Eps)
    /\ Near(Lanczos(n, N), One, Eps) /\ Near(Gauss(HalfR, n, N), One, Eps) /\ Near(Kaiser(Two, n, N), One, Eps)
Ends == (n = 0) =>
    /\ Near(Hann(n, N), 0, Eps) /\ Near(Hamming(n, N), Frac(8, 100), Eps) /\ Near(Lanczos(n, N), 0, Eps)
    /\ Near(Gauss(HalfR, n, N), ExpR(R(-2)), Eps)
Below ==
  LET ws == <<Hann(n, N), Hamming(n, N), BlackmanExact(n, N), Lanczos(n, N), Gauss(HalfR, n, N), Kaiser(R(3), n, N)>>
  IN \A i \in 1..Len(ws) : ws[i] \preceq One ++ Eps /\ ws[i] \succeq BNeg(Eps)
\* The code's evaluations
LanczosImpl == IF 2*n = N-1 THEN One ELSE Div(SinTurn(2*n-(N-1), 2*(N-1)), Quot(Pi ** (2*n-(N-1)), N-1))
DoubleAngle == Near(CosTurn((2*n) % (N-1), N-1), CosTurn(2*n, N-1), Eps)
LanczosOk == Near(LanczosImpl, Lanczos(n, N), Eps)
\* the series as the code sums it, 34 terms, at the largest argument
RECURSIVE Series(_, _, _, _)
Series(x, val, k, acc) == IF k = 35 THEN acc ELSE LET v == Mul(val, x // (2 * k)) IN Series(x, v, k + 1, acc ++ Sqr(v))
KaiserOk ==
  LET x == Mul(Mul(Pi, R(3)), Sqrt(One -- Sqr(Centered(n, N)))) IN
  Near(Series(x, One, 1, One), BesselI0(x), Relative(BesselI0(x), 1, 55))
Low2Impl(num, den) ==
  LET twox == 2*n - (N-1) IN
  IF twox = 0 THEN Frac(2*num, den)
  ELSE Mul(Frac(2*num, den), Div(SinTurn(Rem(twox * num, 2*den), 2*den), Mul(HalfPi, Frac(2*num, den) ** twox)))
Cuts == {<<1, 4>>, <<1, 3>>, <<2, 5>>, <<3, 8>>, <<1, 100>>, <<5000, 48000>>}
Low2 == \A c \in Cuts : Near(Low2Impl(c[1], c[2]), Low(Frac(c[1], c[2]), n, N), Eps)
\* low and high pass add up to the impulse, where there is a center; a band pass is what two low
\* passes differ by
Complementary == \A c \in Cuts :
    Near(Low(Frac(c[1], c[2]), n, N) ++ High(Frac(c[1], c[2]), n, N), IF N % 2 = 1 THEN (IF 2*n = N-1 THEN One ELSE 0) ELSE Sinc(Off(n, N)), Eps)
\* the code's two cases of the transformer
HilbertImpl ==
  IF N % 2 = 1 THEN LET x == n - (N-1) \div 2 IN IF x % 2 = 1 THEN Div(R(2), Pi ** x) ELSE 0
  ELSE Div(One, Mul(Pi, Off(n, N)))
HilbertOk == Near(HilbertImpl, Hilbert(n, N), Eps)
=============================================================================
