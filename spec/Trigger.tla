--------------------------------- MODULE Trigger -------------------------------
(* Schmitt trigger and edge triggers (trigger.hh).                              *)
EXTENDS Big
\* The state after an input x, with thresholds lo and hi
Schmitt(on, x, lo, hi) == IF on THEN ~(x \prec lo) ELSE x \succ hi
Rising(prev, x) == ~prev /\ x
Falling(prev, x) == prev /\ ~x
=============================================================================
