---------------------------------- MODULE Kahan --------------------------------
(* The accuracy promised by compensated summation (kahan.hh).  All numbers are  *)
(* integers of a common scale; p is the precision of the type in bits.          *)
EXTENDS Big
\* err <= (2u + C n u^2) mag   where u = 2^-p
C == 2
Accurate(sum, exact, mag, n, p) ==
  Shl(BAbs(sum -- exact), 2 * p) \preceq ((Shl(2, p) ++ (C ** n)) ** mag)
=============================================================================
