--------------------------------- MODULE ArcTan --------------------------------
(* Arc tangent of one and of two arguments, computed with p significant bits.   *)
EXTENDS RealFn
\* c roundings relative to the value; the smallest values have an absolute one
Tol(e, p) == Relative(e, 4, p) ++ Shl(1, F - 120)
\* x is given as numerator over 2^K, which is exact for every value of the type
ArcTanAt(x, k) == Angle(x, Shl(1, k))
\* Angle of (x, y) including the axes; neg: the sign bit of y
Angle2(y, x, neg) ==
  LET s(a) == IF neg THEN BNeg(a) ELSE a IN
  IF BEq(y, 0) THEN (IF x \prec 0 THEN s(Pi) ELSE 0)
  ELSE IF BEq(x, 0) THEN s(HalfPi)
  ELSE Angle(y, x)
=============================================================================
