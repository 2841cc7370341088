--------------------------------- MODULE Cordic --------------------------------
(* The integer arc tangent of b-bit coordinates, in units of 2^-b of a turn:    *)
(* the error allowed, in units of 1/64.                                         *)
EXTENDS RealFn
\* True angle in units of 2^-(b+6) of a turn, F bits behind the point dropped
TrueAngle(y, x, b) == Quot(Shl(Angle(y, x), b + 6), TwoPi)
\* a bound c0 + c1/r: b = 8: 1.4 + 32/r, b = 16: 2 + 26000/r  (times 64)
Allowed(y, x, b) ==
  LET r2 == (x ** x) ++ (y ** y)
      c0 == IF b = 8 THEN 90 ELSE 128
      c1 == IF b = 8 THEN 2048 ELSE 1664000
  IN c0 ++ (c1 // BMax(1, BSqrt(r2)))
\* Difference of two angles modulo a turn
Difference(s, t, b) == LET d == (s -- t) %% Shl(1, b + 6) IN BMin(d, Shl(1, b + 6) -- d)
Fine(a, y, x, b) == Difference(64 ** a, TrueAngle(y, x, b), b) \preceq Allowed(y, x, b)
=============================================================================
