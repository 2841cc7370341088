--------------------------------- MODULE Biquads -------------------------------
(* Second-order sections, computed with p significant bits.  Values are         *)
(* integers over 2^F.                                                           *)
EXTENDS Expo, Cplx
\* The coefficients b0 b1 b2 a0 a1 a2 of a design at the angle with cosine c and sine s, where
\* al is s/2Q
Coeffs(kind, c, al) ==
  CASE kind = "low" -> << Shr(One -- c, 1), One -- c, Shr(One -- c, 1), One ++ al, BNeg(2 ** c), One -- al >>
    [] kind = "high" -> << Shr(One ++ c, 1), BNeg(One ++ c), Shr(One ++ c, 1), One ++ al, BNeg(2 ** c), One -- al >>
    [] kind = "band" -> << al, 0, BNeg(al), One ++ al, BNeg(2 ** c), One -- al >>
    [] kind = "notch" -> << One, BNeg(2 ** c), One, One ++ al, BNeg(2 ** c), One -- al >>
    [] kind = "all" -> << One -- al, BNeg(2 ** c), One ++ al, One ++ al, BNeg(2 ** c), One -- al >>
\* Quality, with its relative error in units of 2^-p
Quality(q) == [q |-> q, e |-> 1]
Decibels(d) == LET x == d // 10 IN [q |-> Ten(x, F), e |-> 10 * Cond(x)]
\* Coefficients over a0, in the order b0 b1 b2 a1 a2, and bounds of their errors: cosine and sine
\* are accurate to 3 units, so those of 1 - c and al are absolute
Design(kind, n, N, Q, p) ==
  LET c == CosTurn(n, N)
      al == Div(SinTurn(n, N), 2 ** Q.q)
      ea == Div(Roundoffs(3, p), 2 ** Q.q) ++ Relative(al, 4 + Q.e, p)
      k == Coeffs(kind, c, al)
      e == ea ++ Roundoffs(8, p)
      ea0 == ea ++ Relative(k[4], 1, p)
      Over(b) == Div(b, k[4])
      Err(b) == Div(e ++ Mul(BAbs(Over(b)), ea0), k[4]) ++ Relative(Over(b), 2, p)
  IN [c |-> << Over(k[1]), Over(k[2]), Over(k[3]), BNeg(Over(k[5])), BNeg(Over(k[6])) >>,
      e |-> << Err(k[1]), Err(k[2]), Err(k[3]), Err(k[5]), Err(k[6]) >>]
Undesigned == [c |-> << One, 0, 0, 0, 0 >>, e |-> << 0, 0, 0, 0, 0 >>]
\* Output for h = <<x0, x1, x2, y1, y2>>, and the error of computing it
Output(d, h) == Shr(Dot(d.c, h), F)
OutputErr(d, h, p) ==
  Shr(Dot(d.e, h), F) ++ Relative(Shr(Dot(d.c, h), F), 8, p) ++ 8
\* Quality of section i (from 0) of a Butterworth filter of order 2M
SectionQ(i, M) == Div(One, 2 ** CosTurn(2 * i + 1, 8 * M))
=============================================================================
