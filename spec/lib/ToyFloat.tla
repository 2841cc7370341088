-------------------------------- MODULE ToyFloat -------------------------------
(* Binary floating-point arithmetic with P significant bits on integers, with   *)
(* rounding to nearest even and without limits of the exponent.  Precisions of  *)
(* a few bits make all the rounding phenomena visible in small state spaces.    *)
EXTENDS Big
RoundTo(x, P) == LET e == BLen(x) - P IN IF e > 0 THEN RoundShr(x, e) * 2^e ELSE x
Representable(x, P) == RoundTo(x, P) = x
=============================================================================
