-------------------------------- MODULE ExpModel -------------------------------
(* The repeated squaring, the rational kernel and the repeated square roots,    *)
(* with exact arithmetic.  One state for each exponent n.                       *)
EXTENDS Expo, TLC
CONSTANTS Top, Levels
VARIABLE n
Init == n = 0 - Top
Next == n < Top /\ n' = n + 1
Spec == Init /\ [][Next]_n

RECURSIVE Squared(_, _)
Squared(t, k) == IF k = 0 THEN t ELSE Squared(t ** t, k - 1)
Magnitude == IF n < 0 THEN 0 - n ELSE n
\* 2^|n| from 64 times a small power, and the rest
PowerOfTwo ==
  LET a64 == Magnitude \div 64
      ar == Magnitude - a64 * 64
  IN BEq(Squared(Shl(1, a64), 6) ** Shl(1, ar), Shl(1, Magnitude))

Digits20 == BInt("100000000000000000000")
D(str) == Shl(BInt(str), F) // Digits20
LG102A == D("30102539062500000000")
LG102B == D("460503898119521")
\* 10^x for |x| up to half of log10(2) and a bit
Kernel(x) ==
  LET xx == Sqr(x)
      py == Mul(x, Mul(xx, Mul(xx, Mul(xx, D("4099625197985870231")) ++ D("1174527325544340590150")) ++ D("40671728993687272551600")) ++ D("239423741207388267439000"))
      qy == Mul(xx, Mul(xx, xx ++ D("8509361608493065326250")) ++ D("127209271178345121210000")) ++ D("207960819286001865907000")
  IN One ++ Div(2 ** py, qy -- py)
\* x = n/64: the nearest power of two, what remains, and the kernel there
Tens ==
  LET x == Frac(n, 64)
      i == ToInt((Mul(x, Frac(332192809, 100000000)) ++ HalfR) // One)
      rest == (x -- (i ** LG102A)) -- (i ** LG102B)
      e == Ten(x, 200)
  IN Near(ShiftBy(Kernel(rest), i + 200 - F), e, Relative(e, 2, 52))

\* the series of the logarithm after ten square roots
RECURSIVE Root(_, _)
Root(x, k) == IF k = 0 THEN x ELSE Root(Sqrt(x), k - 1)
Inv == <<13, 11, 9, 7, 5, 3, 1>>
RECURSIVE Horner(_, _, _)
Horner(xx, i, acc) == IF i > Len(Inv) THEN acc ELSE Horner(xx, i + 1, Mul(acc, xx) ++ Frac(1, Inv[i]))
Decibel(v) ==
  LET x == Root(v, 10)
      q == Div(x -- One, x ++ One)
  IN Mul(Mul(Div(R(20480), Ln10), q), Horner(Sqr(q), 1, 0))
\* of 2^n
Dbs ==
  (Magnitude <= Levels) =>
    Near(Decibel(ShiftBy(One, n)), Db(ShiftBy(One, n), F), Shl(1, F - 44))
=============================================================================
