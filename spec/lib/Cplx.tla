---------------------------------- MODULE Cplx ---------------------------------
(* Complex numbers as pairs <<re, im>> of integers of any common scale.         *)
EXTENDS RealFn
CEq(a, b) == BEq(a[1], b[1]) /\ BEq(a[2], b[2])
CAdd(a, b) == <<a[1] ++ b[1], a[2] ++ b[2]>>
CSub(a, b) == <<a[1] -- b[1], a[2] -- b[2]>>
CNeg(a) == <<BNeg(a[1]), BNeg(a[2])>>
CConj(a) == <<a[1], BNeg(a[2])>>
\* products and squared magnitude are of twice the scale
CMul(a, b) == <<(a[1] ** b[1]) -- (a[2] ** b[2]), (a[1] ** b[2]) ++ (a[2] ** b[1])>>
CScale(s, a) == <<s ** a[1], s ** a[2]>>
CNorm(a) == (a[1] ** a[1]) ++ (a[2] ** a[2])
CShl(a, k) == <<Shl(a[1], k), Shl(a[2], k)>>

\* |r - e| within c roundings of the magnitude m, part by part
CNear(r, e, m, c, p) ==
  /\ BAbs(r[1] -- e[1]) \preceq Shr(c ** m[1], p)
  /\ BAbs(r[2] -- e[2]) \preceq Shr(c ** m[2], p)
CMag(a) == <<BAbs(a[1]), BAbs(a[2])>>
\* what is added up in a product
MulMag(a, b) == <<BAbs(a[1] ** b[1]) ++ BAbs(a[2] ** b[2]), BAbs(a[1] ** b[2]) ++ BAbs(a[2] ** b[1])>>
=============================================================================
