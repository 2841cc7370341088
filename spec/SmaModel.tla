-------------------------------- MODULE SmaModel -------------------------------
(* The implementations of sma.hh in floating-point arithmetic of P bits on      *)
(* samples from a grid: the sum of the whole window (1), the running sum (2)    *)
(* and the compensated running sum (3); the tree (4) is SwaTree.tla.  The       *)
(* state space covers input histories of every length.                          *)
EXTENDS Window, ToyFloat, TLC, Json
CONSTANTS N, Top, P, PlainExact
VARIABLES ring, pos,          \* variant 1
          w,                  \* the delay line of variants 2 and 3
          plain, high, low,   \* their sums
          whole,              \* result of variant 1, before the division
          hist
vars == <<ring, pos, w, plain, high, low, whole, hist>>
Values == (0 - Top)..Top
Rnd(x) == RoundTo(x, P)
Init ==
  /\ ring = [i \in 0..N-1 |-> 0] /\ pos = 0 /\ w = Initial(N, 0)
  /\ plain = 0 /\ high = 0 /\ low = 0 /\ whole = 0 /\ hist = <<>>
RECURSIVE Added(_, _)
Added(r, i) == IF i = 0 THEN r[0] ELSE Rnd(Added(r, i - 1) + r[i])
Kahan(h, m, x) ==
  LET tmp == Rnd(x - m)
      sum == Rnd(h + tmp)
  IN <<sum, Rnd(Rnd(sum - h) - tmp)>>
Call(v) ==
  /\ ring' = [ring EXCEPT ![pos] = v]
  /\ pos' = IF pos + 1 >= N THEN 0 ELSE pos + 1
  /\ whole' = Added(ring', N - 1)
  /\ w' = Slide(w, v)
  /\ plain' = IF PlainExact THEN plain + (v - Head(w)) ELSE 0
  /\ LET a == Kahan(high, low, 0 - Head(w))
         b == Kahan(a[1], a[2], v)
     IN high' = b[1] /\ low' = b[2]
  /\ hist' = Append(hist, <<"in", v>>)
Next == \E v \in Values : Call(v)
Spec == Init /\ [][Next]_vars
Exact == BSum(w)
\* The remainder of the compensated sum is all that is missing: it never drifts
NoDrift == high - low = Exact
Compensated == BAbs(high - Exact) * 2^P <= BMax(BAbs(high), N * Top)
WholeFine == BAbs(whole - Exact) * 2^P <= N * BAbsSum(w)
PlainFine == PlainExact => plain = Exact
View == <<ring, pos, w, plain, high, low, whole>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
