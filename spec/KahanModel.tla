------------------------------- MODULE KahanModel ------------------------------
(* Kahan's algorithm in floating-point arithmetic of precision P (a handful of  *)
(* bits): TLC runs it on all short sequences of all representable inputs and    *)
(* checks the accuracy promised in Kahan.tla.                                   *)
EXTENDS Kahan, ToyFloat
CONSTANTS P, Max, Len0
VARIABLES high, low, exact, mag, n
vars == <<high, low, exact, mag, n>>
Rnd(x) == RoundTo(x, P)
Inputs == {x \in (0-Max)..Max : Rnd(x) = x}
Init == high \in Inputs /\ low = 0 /\ exact = high /\ mag = BAbs(high) /\ n = 0
Add(x) ==
  LET tmp == Rnd(x - low)
      sum == Rnd(high + tmp)
  IN /\ low' = Rnd(Rnd(sum - high) - tmp)
     /\ high' = sum
     /\ exact' = exact + x /\ mag' = mag + BAbs(x) /\ n' = n + 1
Next == n < Len0 /\ \E x \in Inputs : Add(x)
Spec == Init /\ [][Next]_vars
Bound == Accurate(high, exact, mag, n, P)
\* What `same' must answer: an input of zero changes nothing, others do
ZeroChangesNothing ==
  LET tmp == Rnd(0 - low)
      sum == Rnd(high + tmp)
  IN (high = Rnd(high - low)) => (sum = high /\ Rnd(Rnd(sum - high) - tmp) = low)
=============================================================================
