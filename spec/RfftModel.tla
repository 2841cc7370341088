-------------------------------- MODULE RfftModel ------------------------------
(* The real transform of N = 2H values: they are taken as H complex ones, and   *)
(* the two interleaved spectra are separated in place, two bins at a time.      *)
(* Exact arithmetic; the input is an impulse at position n.                     *)
EXTENDS Dft, TLC
CONSTANT Top
VARIABLES n, H
Init == H \in 1..Top /\ n = 0
Next == n < 2 * H - 1 /\ n' = n + 1 /\ UNCHANGED H
Spec == Init /\ [][Next]_<<n, H>>
Add(a, b) == <<a[1] ++ b[1], a[2] ++ b[2]>>
Times(a, b) == <<Mul(a[1], b[1]) -- Mul(a[2], b[2]), Mul(a[1], b[2]) ++ Mul(a[2], b[1])>>
Conj(a) == <<a[1], BNeg(a[2])>>
\* Transform of the H complex values: the impulse is real or imaginary, at n \div 2
W(k) == <<CosTurn((n \div 2) * k, H), BNeg(SinTurn((n \div 2) * k, H))>>
Z(k) == IF n % 2 = 0 THEN W(k) ELSE <<BNeg(W(k)[2]), W(k)[1]>>
A(k) == <<Shr(One -- SinTurn(k, 2 * H), 1), BNeg(Shr(CosTurn(k, 2 * H), 1))>>
B(k) == <<Shr(One ++ SinTurn(k, 2 * H), 1), Shr(CosTurn(k, 2 * H), 1)>>
RECURSIVE Separate(_, _)
Separate(out, i) ==
  IF i > H \div 2 THEN out
  ELSE LET t == Add(Times(out[i], A(i)), Times(Conj(out[H - i]), B(i)))
           o1 == [out EXCEPT ![H - i] = Add(Times(out[H - i], A(H - i)), Times(Conj(out[i]), B(H - i)))]
       IN Separate([o1 EXCEPT ![i] = t], i + 1)
Impl ==
  LET z == [k \in 0..H |-> IF k < H THEN Z(k) ELSE <<0, 0>>]
      o1 == [z EXCEPT ![H] = <<Shr(z[0][1] -- z[0][2], 1), 0>>]
      o2 == [o1 EXCEPT ![0] = <<Shr(z[0][1] ++ z[0][2], 1), 0>>]
  IN Separate(o2, 1)
Want(k) == LET e == <<CosTurn(n * k, 2 * H), BNeg(SinTurn(n * k, 2 * H))>> IN
           IF k = 0 \/ k = H THEN <<Shr(e[1], 1), Shr(e[2], 1)>> ELSE e
Right == LET out == Impl IN \A k \in 0..H : Near(out[k][1], Want(k)[1], Shl(1, 30)) /\ Near(out[k][2], Want(k)[2], Shl(1, 30))
=============================================================================
