--------------------------------- MODULE RealFn --------------------------------
(* Real numbers as binary fixed-point numbers with F bits behind the point, and *)
(* the elementary functions of them, from their series.  The results are exact  *)
(* to within a few units of 2^-F (relative to the result for large ones), far   *)
(* below every tolerance used with them.  RealTest.tla checks the functions     *)
(* against identities and known digits.                                         *)
EXTENDS Big

F == 128
One == Shl(1, F)
Two == Shl(1, F + 1)
HalfR == Shl(1, F - 1)
ShiftBy(a, k) == IF k >= 0 THEN Shl(a, k) ELSE Shr(a, 0 - k)
\* Integers and fractions
R(n) == Shl(n, F)
Quot(a, b) == IF b \prec 0 THEN BNeg(a) // BNeg(b) ELSE a // b
Frac(n, d) == Quot(Shl(n, F), d)
Mul(a, b) == Shr(a ** b, F)
Div(a, b) == Quot(Shl(a, F), b)
Sqr(a) == Shr(a ** a, F)
Sqrt(a) == BSqrt(Shl(a, F))
Near(a, b, tol) == BAbs(a -- b) \preceq tol
\* c units of roundoff, 2^-p each
Roundoffs(c, p) == Shl(c, F - p)
\* the same relative to |a|
Relative(a, c, p) == Shr(BAbs(a) ** c, p) ++ 1

--------------------------------------------------------------------------------
\* arctan(1/q) by its series; t: the power over which the next term is divided
RECURSIVE ArcCotFrom(_, _, _, _)
ArcCotFrom(q2, t, k, acc) ==
  IF BEq(t, 0) THEN acc
  ELSE ArcCotFrom(q2, t // q2, k + 2, IF k % 4 = 1 THEN acc ++ (t // k) ELSE acc -- (t // k))
G == 32            \* guard bits
ArcCot(q) == Shr(ArcCotFrom(q * q, Shl(1, F + G) // q, 1, 0), G)
Pi == 4 ** ((4 ** ArcCot(5)) -- ArcCot(239))
TwoPi == 2 ** Pi
HalfPi == Shr(Pi, 1)

\* Taylor series of sine and cosine, for |x| of order one
RECURSIVE TrigFrom(_, _, _, _)
TrigFrom(x2, t, k, acc) ==
  IF BAbs(t) \preceq 1 THEN acc
  ELSE LET u == BNeg(Mul(t, x2)) // ((k + 1) * (k + 2)) IN TrigFrom(x2, u, k + 2, acc ++ u)
SinSmall(x) == TrigFrom(Sqr(x), x, 1, x)
CosSmall(x) == TrigFrom(Sqr(x), One, 0, One)
\* Cosine of q quarter turns plus x, |x| small
CosQ(q, x) ==
  CASE q % 4 = 0 -> CosSmall(x)
    [] q % 4 = 1 -> BNeg(SinSmall(x))
    [] q % 4 = 2 -> BNeg(CosSmall(x))
    [] q % 4 = 3 -> SinSmall(x)
\* Nearest quarter turn to n/N turns, and the remaining angle
Quarter(n, N) == ((8 ** n) ++ N) // (2 ** N)
Rest(n, N, q) == (Pi ** ((4 ** n) -- (q ** N))) // (2 ** N)
CosTurn(n, N) == LET q == Quarter(n, N) IN CosQ(ToInt(q %% 4), Rest(n, N, q))
SinTurn(n, N) == LET q == Quarter(n, N) IN CosQ(ToInt((q ++ 3) %% 4), Rest(n, N, q))
\* The same in radians
CosR(x) == LET q == (x ++ Shr(HalfPi, 1)) // HalfPi IN CosQ(ToInt(q %% 4), x -- (q ** HalfPi))
SinR(x) == LET q == (x ++ Shr(HalfPi, 1)) // HalfPi IN CosQ(ToInt((q ++ 3) %% 4), x -- (q ** HalfPi))

\* Arc tangent: halve the angle twice, then the series
HalfAngle(x) == Div(x, One ++ Sqrt(One ++ Sqr(x)))
RECURSIVE AtanFrom(_, _, _, _)
AtanFrom(x2, t, k, acc) ==
  IF BAbs(t) \preceq 1 THEN acc
  ELSE LET u == BNeg(Mul(t, x2)) IN AtanFrom(x2, u, k + 2, acc ++ (u // (k + 2)))
AtanSmall(x) == LET y == HalfAngle(HalfAngle(x)) IN 4 ** AtanFrom(Sqr(y), y, 1, y)      \* |x| <= 1
\* Arc tangent of the quotient of two integers of any scale, d > 0, 0 <= n <= d
AtanFrac(n, d) == AtanSmall(Frac(n, d))
\* Angle of the point (x, y) # (0, 0), coordinates of any common scale
Angle(y, x) ==
  LET ay == BAbs(y)
      ax == BAbs(x)
      a == IF ay \preceq ax THEN AtanFrac(ay, ax) ELSE HalfPi -- AtanFrac(ax, ay)
      b == IF x \prec 0 THEN Pi -- a ELSE a
  IN IF y \prec 0 THEN BNeg(b) ELSE b
\* The angle modulo a turn, in (-Pi, Pi]
Wrapped(a) == LET r == a %% TwoPi IN IF r \succ Pi THEN r -- TwoPi ELSE r
Hypot(y, x) == BSqrt((x ** x) ++ (y ** y))

\* ln 2 = 2 artanh(1/3)
RECURSIVE ArtanhFrom(_, _, _, _)
ArtanhFrom(x2, t, k, acc) ==
  IF t \preceq 1 THEN acc
  ELSE LET u == Mul(t, x2) IN ArtanhFrom(x2, u, k + 2, acc ++ (u // (k + 2)))
Artanh(x) == ArtanhFrom(Sqr(x), x, 1, x)            \* 0 <= x <= 1/3
Ln2 == 2 ** Artanh(Frac(1, 3))
\* Natural logarithm of a * 2^-k, for a positive integer a of any size
LnAt(a, k) ==
  LET e == ToInt(BLen(a)) - 1                        \* 2^e <= a < 2^(e+1)
      m == ShiftBy(a, F - e)
  IN ((e - k) ** Ln2) ++ (2 ** Artanh(Div(m -- One, m ++ One)))
LnR(x) == LnAt(x, F)
Ln10 == LnR(R(10))

RECURSIVE ExpFrom(_, _, _, _)
ExpFrom(x, t, k, acc) ==
  IF t \preceq 1 THEN acc
  ELSE LET u == Mul(t, x) // k IN ExpFrom(x, u, k + 1, acc ++ u)
\* e^x with k bits behind the point
ExpAt(x, k) ==
  LET e == ToInt(x // Ln2)
  IN ShiftBy(ExpFrom(x -- (e ** Ln2), One, 1, One), e + k - F)
ExpR(x) == ExpAt(x, F)

\* Modified Bessel function of the first kind and order zero; q: (x/2)^2
RECURSIVE I0From(_, _, _, _)
I0From(q, t, k, acc) ==
  IF t \preceq 1 THEN acc
  ELSE LET u == Mul(t, q) // (k * k) IN I0From(q, u, k + 1, acc ++ u)
BesselI0(x) == LET h == Shr(x, 1) IN I0From(Sqr(h), One, 1, One)

\* sin(pi x)/(pi x)
Sinc(x) == IF BEq(x, 0) THEN One ELSE LET y == Mul(Pi, x) IN
  IF BAbs(y) \prec Shl(1, F \div 3) THEN One -- (Sqr(y) // 6) ELSE Div(SinR(y), y)

--------------------------------------------------------------------------------
\* Values recorded from the code, at F bits
V(str) == FltAt(str, F)
Vs(s) == FltSeqAt(s, F)
=============================================================================
