------------------------------ MODULE ResampleModel ----------------------------
(* Positions of the resamplers in exact units of one Q-th of a sample.  The     *)
(* streaming one keeps all its results within half a sample of the newest       *)
(* samples and follows the requested differences exactly; the block one reads   *)
(* and writes inside of the block only, each result at most once.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Qs, Depth, MaxTaps, MaxSamples, Few
VARIABLES Q, dpos, n, m, sum, at, count, hist
vars == <<Q, dpos, n, m, sum, at, count, hist>>
Differences == IF Few THEN { -Q \div 2, -1, 0, 1, Q \div 2 } ELSE (0 - (Q \div 2))..(Q \div 2)
Init == Q \in Qs /\ dpos = 0 /\ n = 0 /\ m = 0 /\ sum = 0 /\ at = << >> /\ count = 0 /\ hist = << >>
\* all results of one call: offset and number of results; `at' has the times of the results
RECURSIVE Again(_, _, _, _)
Again(d, delta, c, times) ==
  LET t == Append(times, (n + 1) * Q - d) IN
  IF 2 * (d + delta) > Q THEN Again(d + delta - Q, delta, c + 1, t)
  ELSE [d |-> d + delta, c |-> c + 1, t |-> t]
Call(delta) ==
  /\ n < Depth /\ n' = n + 1 /\ UNCHANGED Q
  /\ hist' = Append(hist, << "in", delta + 1000 * Q >>)
  /\ IF 2 * dpos < 0 - Q THEN dpos' = dpos + Q /\ count' = 0 /\ at' = << >> /\ UNCHANGED <<m, sum>>
     ELSE LET r == Again(dpos, delta, 0, << >>) IN
          dpos' = r.d /\ count' = r.c /\ at' = r.t /\ m' = m + r.c /\ sum' = sum + r.c * delta
Next == \E d \in Differences : Call(d)
Spec == Init /\ [][Next]_vars
View == <<Q, dpos, n, m, sum, at, count>>
\* As many results more than samples as the sum of the differences demands
Follows == dpos = sum + Q * (n - m) /\ 0 - Q <= dpos /\ 2 * dpos <= Q
Close == \A i \in 1..Len(at) : 2 * at[i] <= (2 * n + 1) * Q /\ 2 * at[i] >= (2 * n - 1) * Q
AtMostTwo == count <= 2
\* the time of the next result is later by one minus the difference: by induction from the one of the first
Times == \A i \in 2..Len(at) : at[i] - at[i - 1] > 0 /\ at[i] - at[i - 1] <= Q
\* Blocks
Nearest(a, b) == IF (2 * a) % b = 0 /\ ((2 * a) \div b) % 2 = 1
                 THEN LET q == a \div b IN q + (q % 2)            \* ties to even
                 ELSE (2 * a + b) \div (2 * b)
BlockRight == n = 0 =>
  \A T \in 1..MaxTaps, samples \in 0..MaxSamples, p \in 1..(2*Q) :
    \* ratio Q/p, differences up to the rate, upwards, and less than the rate downwards
    \A i \in 0..(samples - T - 1) :
      LET s0 == Nearest(i * Q, p) IN
      ~(s0 < 0 \/ s0 + T > samples) =>
         /\ s0 >= 0 /\ s0 + T - 1 < samples
         /\ i + (T - 1) \div 2 < samples
         \* half a sample away from the position
         /\ \A k \in {2 * (s0 * p - i * Q)} : k <= p /\ 0 - k <= p
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
