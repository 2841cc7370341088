------------------------------- MODULE Quadrature ------------------------------
(* The Hilbert transformer and the quarter-rate down converter as plain         *)
(* convolutions with windowed ideal responses.  Values are integers over 2^F.   *)
EXTENDS Windows
\* Impulse responses of T taps for the window parameter a
Transformer(a, T) == BSeq([i \in 1..T |-> Mul(Kaiser(a, i - 1, T), Hilbert(i - 1, T))])
HalfBand(a, T) == BSeq([i \in 1..T |-> Mul(Kaiser(a, i - 1, T), Low(Frac(1, 4), i - 1, T))])
Center(a, T) == Kaiser(a, (T - 1) \div 2, T)
\* Filtered: sum over n of h[n+1] x[k-n] for each k, where what came before x is given by the T
\* last samples before it
Backwards(h) == BSeq([i \in 1..Len(h) |-> h[Len(h) + 1 - i]])
Absolute(h) == BSeq([i \in 1..Len(h) |-> BAbs(h[i])])
\* Shifted down by a quarter of the rate: sample m (from 0) is multiplied by i(-i)^m, which leaves
\* the odd ones real and the even ones imaginary
RealPart(x, m) == IF m % 4 = 1 THEN x ELSE IF m % 4 = 3 THEN BNeg(x) ELSE 0
ImagPart(x, m) == IF m % 4 = 0 THEN x ELSE IF m % 4 = 2 THEN BNeg(x) ELSE 0
\* Roundings of a coefficient (the Kaiser window has most of them), and of the sum
Units(a, T) == T ++ 24 ++ Shr(12 ** (Two ++ Sqr(a)), F)
=============================================================================
