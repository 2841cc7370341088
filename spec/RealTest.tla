-------------------------------- MODULE RealTest -------------------------------
(* Checks the operators of Big.tla (against 32-bit arithmetic) and of RealFn    *)
(* (against identities, and digits known from elsewhere).                       *)
EXTENDS RealFn, TLC
VARIABLE n
Init == n = 1
Next == n < 300 /\ n' = n + 1
Spec == Init /\ [][Next]_n

Tiny == Shl(1, 12)      \* units of 2^-F
Digits40 == BInt("10000000000000000000000000000000000000000")
Dec(str) == Shl(BInt(str), F) // Digits40                        \* 40 decimals
ASSUME Near(Pi, Dec("31415926535897932384626433832795028841971"), Shl(1, 8))
ASSUME Near(Ln2, Dec("6931471805599453094172321214581765680755"), Shl(1, 8))
ASSUME Near(Ln10, Dec("23025850929940456840179914546843642076011"), Shl(1, 8))
ASSUME Near(ExpR(One), Dec("27182818284590452353602874713526624977572"), Shl(1, 8))
ASSUME Near(Sqrt(Two), Dec("14142135623730950488016887242096980785696"), Shl(1, 8))
ASSUME Near(BesselI0(One), Dec("12660658777520083355982446252147175376076"), Shl(1, 8))
ASSUME Near(SinR(One), Dec("8414709848078965066525023216302989996225"), Shl(1, 8))
ASSUME Near(AtanSmall(HalfR), Dec("4636476090008061162142562314612144020285"), Shl(1, 8))
ASSUME BEq(FltAt("0x1.8p+1", 4), 48) /\ BEq(FltAt("-0x1.8p-3", 4), -3) /\ BEq(FltAt("0x1.8p+0", 0), 2)
ASSUME ~IsFinite("nan") /\ ~IsFinite("-inf") /\ IsFinite("0x0p+0")
ASSUME BEq(Dot(<<2, 3>>, <<5, -7>>), -11) /\ BEq(BSum(<<4, -9>>), -5) /\ BEq(BAbsSum(<<4, -9>>), 13) /\ BEq(BMaxAbs(<<4, -9>>), 9)
ASSUME Convolve(<<1, 2>>, <<3, 4, 5>>) = <<11, 14>>
ASSUME BMaxOf(<<4, -9, 3>>) = 4 /\ BMinOf(<<4, -9, 3>>) = -9 /\ BSort(<<4, -9, 3, 4>>) = <<-9, 3, 4, 4>>

ASSUME LET f == [a |-> Shl(5, 70), b |-> 1]
           g == [f EXCEPT !.a = @ ++ 1, !.b = @ ++ Shl(1, 40)]
       IN BEq(g.a -- f.a, 1) /\ BEq(g.b -- 1, Shl(1, 40))

x == Frac(n, 37)
Trig ==
  /\ Near(Sqr(SinR(x)) ++ Sqr(CosR(x)), One, Tiny)
  /\ Near(Sqr(SinTurn(n, 77)) ++ Sqr(CosTurn(n, 77)), One, Tiny)
  /\ Near(SinTurn(n, 77), SinR((TwoPi ** n) // 77), Tiny)
  /\ Near(CosTurn(0 - n, 77), CosR((TwoPi ** n) // 77), Tiny)
  /\ Near(2 ** Mul(SinR(x), CosR(x)), SinR(2 ** x), Tiny)
  /\ BEq(CosTurn(n, n), One) /\ BEq(SinTurn(n, 4 * n), One) /\ BEq(CosTurn(n, 2 * n), BNeg(One)) /\ BEq(SinTurn(n, 2 * n), 0)
ArcTan ==
  /\ Near(Angle(SinTurn(n, 601), CosTurn(n, 601)), (TwoPi ** n) // 601, Tiny)
  /\ Near(Angle(SinTurn(0 - n, 601), CosTurn(n, 601)), BNeg((TwoPi ** n) // 601), Tiny)
  /\ Near(Wrapped(((TwoPi ** n) // 601) ++ (5 ** TwoPi)), (TwoPi ** n) // 601, Tiny)
  /\ Near(Hypot(3 * n, 4 * n), 5 * n, 0)
ExpLn ==
  /\ Near(LnR(ExpR(x)), x, Tiny)
  /\ Near(LnR(ExpR(BNeg(x))), BNeg(x), Shl(Tiny, (2 * n) \div 37 + 2))
  /\ Near(LnAt(n * n, 0), 2 ** LnAt(n, 0), Tiny)
  /\ Near(Mul(ExpR(x), ExpR(BNeg(x))), One, Shl(Tiny, (2 * n) \div 37 + 2))
  /\ BEq(Shr(ExpAt(x, F + 20), 20), ExpR(x))
Bessel ==                                 \* I0 solves y'' + y'/x = y
  LET h == Frac(1, 1048576)
      p == BesselI0(x ++ h)
      m == BesselI0(x -- h)
      c == BesselI0(x)
      d2 == Div(Div((p ++ m) -- (2 ** c), h), h)
      d1 == Div(Div(p -- m, 2 ** h), x)
  IN Near(d2 ++ d1, c, Shr(c, 36))
\* The overrides agree with the definitions where 32 bits are enough
k == n - 150
Ints ==
  /\ BEq(k ++ 77, k + 77) /\ BEq(k -- 77, k - 77) /\ BEq(k ** 77, k * 77)
  /\ BEq(k // 7, k \div 7) /\ BEq(k %% 7, k % 7)
  /\ (k \prec 7) = (k < 7) /\ (k \preceq 7) = (k <= 7) /\ (k \succ 7) = (k > 7) /\ (k \succeq 7) = (k >= 7)
  /\ BNeg(k) = 0 - k /\ BAbs(k) = (IF k < 0 THEN 0 - k ELSE k)
  /\ BMax(k, 7) = (IF k > 7 THEN k ELSE 7) /\ BMin(k, 7) = (IF k < 7 THEN k ELSE 7)
  /\ Shl(k, 3) = k * 8 /\ Shr(k, 3) = k \div 8
  /\ LET s == ToInt(BSqrt(n)) IN s * s <= n /\ n < (s + 1) * (s + 1)
  /\ LET b == ToInt(BLen(k)) IN 2 ^ b > BAbs(k) /\ (k # 0 => 2 ^ (b - 1) <= BAbs(k))
  /\ LET r == ToInt(RoundShr(k, 3)) IN
     /\ 2 * (k - 8 * r) \in -8..8
     /\ (k - 8 * r \in {-4, 4}) => r % 2 = 0
  /\ BEq((Shl(k, 100) ++ n) %% Shl(1, 100), n) /\ BEq((Shl(k, 100) ++ n) // Shl(1, 100), k)
  /\ BEq(Quot(Shl(k, 90), BNeg(Shl(1, 88))), -4 * k)
=============================================================================
