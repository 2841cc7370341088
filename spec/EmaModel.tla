-------------------------------- MODULE EmaModel -------------------------------
(* The smoothing factor as the code computes it from the cosine has half power  *)
(* at its frequency, whatever that is; and where the code takes the factor of   *)
(* the cascade from a table, the cascade has half power at n over N of the rate *)
(* in the limit of low frequencies: sin^2 of half the cutoff of one average is  *)
(* 1/Factor^2 of that of the cascade.                                           *)
EXTENDS Emas, TLC
CONSTANTS Sizes, MaxOrder
VARIABLES n, N, m
vars == <<n, N, m>>
Init == N \in Sizes /\ n \in 1..(N \div 2) /\ m \in 1..MaxOrder
Spec == Init /\ [][UNCHANGED vars]_vars
Tiny == Shl(1, F - 100)
\* As written in the code
CodeFactor == LET x == CosTurn(n, N) IN x -- One ++ Sqrt(Mul(x, x -- R(4)) ++ R(3))
\* |H|^2 at c, the cosine of a frequency: numerator and denominator
Num(a) == Sqr(a)
Den(a, c) == Sqr(a) ++ (2 ** Mul(One -- a, One -- c))
Same == Near(CodeFactor, HalfPower(n, N, 53).a, Tiny)
Half == LET a == HalfPower(n, N, 53).a IN Near(2 ** Num(a), Den(a, CosTurn(n, N)), Tiny)
Sensible == LET a == HalfPower(n, N, 53).a IN a \succ 0 /\ a \preceq One
\* Power of the whole cascade at the frequency where the power of one is 1/2^(1/m)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN One ELSE Mul(x, Power(x, k - 1))
Whole == Near(Power(Root2(m), m), Two, Tiny)
\* 1/(1 + y^2) with y the frequency over the cutoff of a single one
Table == Near(Power(Div(One, One ++ Sqr(Factor(m))), m), HalfR, Tiny) \/ m = 1
\* The exact statement for one average with cutoff frequency of cosine c: at a frequency of
\* cosine c' with 1 - c' = Factor^2 (1 - c), the cascade has half power
Exact ==
  LET c == CosTurn(n, N)
      a == HalfPower(n, N, 53).a
      c1 == One -- Mul(Sqr(Factor(m)), One -- c)
  IN Near(Power(Div(Num(a), Den(a, c1)), m), HalfR, Tiny)
=============================================================================
