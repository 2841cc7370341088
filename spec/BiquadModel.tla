------------------------------- MODULE BiquadModel -----------------------------
(* The specified sections are the bilinear transforms of the analog prototypes, *)
(* and the cascades have the magnitude response of Butterworth filters.         *)
EXTENDS Biquads, TLC
CONSTANTS Grid, Orders
VARIABLES kind, n, w, q, m
vars == <<kind, n, w, q, m>>
Kinds == {"low", "high", "band", "notch", "all"}
Init == kind \in Kinds /\ n \in 1..(Grid \div 2 - 1) /\ w \in 0..(Grid \div 2 - 1) /\ q \in 1..3 /\ m \in Orders
Spec == Init /\ [][UNCHANGED vars]_vars
Tiny == Shl(1, F - 70)
Qs == << Frac(1, 2), Sqrt(HalfR), R(7) >>
MulC(a, b) == LET c == CMul(a, b) IN << Shr(c[1], F), Shr(c[2], F) >>
\* e^-iw and its square
Z1 == << CosTurn(w, Grid), BNeg(SinTurn(w, Grid)) >>
Z2 == << CosTurn(2 * w, Grid), BNeg(SinTurn(2 * w, Grid)) >>
Poly(a, b, c) == << a ++ Mul(b, Z1[1]) ++ Mul(c, Z2[1]), Mul(b, Z1[2]) ++ Mul(c, Z2[2]) >>
Top(d) == Poly(d.c[1], d.c[2], d.c[3])
Bottom(d) == Poly(One, BNeg(d.c[4]), BNeg(d.c[5]))
D(Q) == Design(kind, n, Grid, [q |-> Q, e |-> 0], 53)
Tan(k) == Div(SinTurn(k, 2 * Grid), CosTurn(k, 2 * Grid))
\* the analog frequency relative to the one of the design: s = i Omega
Omega == Div(Tan(w), Tan(n))
\* numerator and denominator of the prototype
Proto(Q) ==
  LET o2 == Sqr(Omega)
      oq == Div(Omega, Q)
  IN CASE kind = "low" -> << One, 0 >>
       [] kind = "high" -> << BNeg(o2), 0 >>
       [] kind = "band" -> << 0, oq >>
       [] kind = "notch" -> << One -- o2, 0 >>
       [] kind = "all" -> << One -- o2, BNeg(oq) >>
ProtoDen(Q) == << One -- Sqr(Omega), Div(Omega, Q) >>
SameC(a, b) == Near(a[1], b[1], Tiny) /\ Near(a[2], b[2], Tiny)
Bilinear == m = 1 => \E Q \in {Qs[q]} : SameC(MulC(Top(D(Q)), ProtoDen(Q)), MulC(Bottom(D(Q)), Proto(Q)))
\* |H|^2 (1 + Omega^4m) = 1, or Omega^4m
RECURSIVE Gain(_)
Gain(i) == IF i = m THEN << One, One >>
           ELSE LET d == D(SectionQ(i, m))
                    g == Gain(i + 1)
                IN << Mul(Shr(CNorm(Top(d)), F), g[1]), Mul(Shr(CNorm(Bottom(d)), F), g[2]) >>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN One ELSE Mul(x, Pow(x, k - 1))
Butterworth ==
  q = 1 /\ kind \in {"low", "high"} =>
  LET g == Gain(0)
      o == IF Omega \preceq One THEN Pow(Sqr(Omega), 2 * m) ELSE Pow(Sqr(Div(One, Omega)), 2 * m)
      \* the larger of the two powers divided out
      pass == IF (kind = "low") = (Omega \preceq One) THEN One ELSE o
  IN Near(Mul(g[1], One ++ o), Mul(pass, g[2]), Tiny)
=============================================================================
