---------------------------------- MODULE Pnm ----------------------------------
(* Binary Netpbm images: the syntax of the header, and the sRGB transfer curve. *)
EXTENDS Bytes, RealFn
NL == 10
Blank(c) == c \in {32, 9, NL}
Digit(c) == c \in 48..57
\* Position behind the next newline, or behind the end
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) THEN i ELSE IF b[i] = NL THEN i + 1 ELSE LineEnd(b, i + 1)
RECURSIVE Comments(_, _)
Comments(b, i) == IF i <= Len(b) /\ b[i] = 35 THEN Comments(b, LineEnd(b, i)) ELSE i
\* Position behind the blanks, and the comment lines between them, from i
RECURSIVE Separator(_, _)
Separator(b, i) ==
  IF i > Len(b) \/ ~Blank(b[i]) THEN i
  ELSE Separator(b, IF b[i] = NL THEN Comments(b, i + 1) ELSE i + 1)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF i <= Len(b) /\ Digit(b[i]) THEN DigitsEnd(b, i + 1) ELSE i
RECURSIVE Value(_, _, _, _)
Value(b, i, j, v) == IF i = j THEN v ELSE Value(b, i + 1, j, (10 ** v) ++ (b[i] - 48))
\* A number behind a separator: the record continues the one given
Number(b, r) ==
  IF ~r.ok \/ r.at > Len(b) \/ ~Blank(b[r.at]) THEN [r EXCEPT !.ok = FALSE]
  ELSE LET i == Separator(b, r.at)
           j == DigitsEnd(b, i)
       IN [ok |-> j > i, at |-> j, num |-> Append(r.num, Value(b, i, j, 0))]
\* ok: a header; data: position of the first byte of the raster
Parse(b) ==
  LET r0 == [ok |-> Len(b) >= 3 /\ b[1] = 80 /\ b[2] \in {53, 54}, at |-> 3, num |-> <<>>]
      r == Number(b, Number(b, Number(b, r0)))
      ok == r.ok /\ r.at <= Len(b) /\ Blank(b[r.at])
  IN IF ok THEN [ok |-> TRUE, mono |-> b[2] = 53, width |-> r.num[1], height |-> r.num[2], max |-> r.num[3], data |-> r.at + 1]
     ELSE [ok |-> FALSE]

\* a^(n/d) for 0 < a, at F bits
Power(a, n, d) == ExpR((LnR(a) ** n) // d)
Thousandth(n) == Frac(n, 1000)
\* From code c of 0..max to linear light, and from linear light to the encoded value
Linear(c, max) ==
  IF c * 100000 <= 4045 * max THEN Frac(c * 100, 1292 * max)
  ELSE Power(Div(Frac(c, max) ++ Thousandth(55), Thousandth(1055)), 12, 5)
Encoded(x) ==
  LET y == BMin(BMax(x, 0), One) IN
  IF y \preceq Frac(4045, 1292000) THEN (1292 ** y) // 100
  ELSE Mul(Thousandth(1055), Power(y, 5, 12)) -- Thousandth(55)
=============================================================================
