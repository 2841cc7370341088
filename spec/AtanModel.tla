-------------------------------- MODULE AtanModel ------------------------------
(* The reduction of the arc tangent and the assembly of the quadrants, on a     *)
(* grid of points, with exact arithmetic in the place of the rational kernel;   *)
(* and the kernel itself.                                                       *)
EXTENDS ArcTan, TLC
CONSTANT Top
VARIABLES x, y
Init == x = 0 - Top /\ y \in -Top..Top
Next == x < Top /\ x' = x + 1 /\ UNCHANGED y
Spec == Init /\ [][Next]_<<x, y>>

Digits21 == BInt("1000000000000000000000")
D(str) == Shl(BInt(str), F) // Digits21
Kernel(t) ==
  LET xx == Sqr(t)
      p == Mul(xx, Mul(xx, Mul(xx, Mul(xx, D("-875060860003190412279")) ++ D("-16157537187333650766370")) ++ D("-75008557923147046673400")) ++ D("-122886668449013617341000")) ++ D("-64850219049420253717730")
      q == Mul(xx, Mul(xx, Mul(xx, Mul(xx, xx ++ D("24858464901423062979620")) ++ D("165027009831698854204600")) ++ D("432881060491290266895100")) ++ D("485390399635913696486800")) ++ D("194550657148261396442500")
  IN t ++ Div(Mul(Mul(t, xx), p), q)
\* atan of a positive number a/b, as the code reduces it
Positive(a, b) ==
  IF 100 * a <= 66 * b THEN Kernel(Frac(a, b))
  ELSE IF 100000 * a > 241421 * b THEN HalfPi -- Kernel(Frac(b, a))
  ELSE Shr(HalfPi, 1) ++ Kernel(Frac(a - b, a + b))
Abs(a) == IF a < 0 THEN 0 - a ELSE a
ArcTanImpl(a, b) ==                       \* of a/b, b # 0
  LET r == Positive(Abs(a), Abs(b)) IN IF a * b < 0 THEN BNeg(r) ELSE r
Impl(neg) ==
  IF y = 0 THEN (IF x >= 0 THEN 0 ELSE IF neg THEN BNeg(Pi) ELSE Pi)
  ELSE IF x = 0 THEN (IF y < 0 THEN BNeg(HalfPi) ELSE HalfPi)
  ELSE LET phase == ArcTanImpl(y, x) IN
       IF x < 0 THEN (IF phase \succ 0 THEN phase -- Pi ELSE phase ++ Pi) ELSE phase
Right ==
  \A neg \in (IF y = 0 THEN BOOLEAN ELSE {y < 0}) : Near(Impl(neg), Angle2(y, x, neg), Shl(1, F - 55))
=============================================================================
