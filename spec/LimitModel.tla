------------------------------- MODULE LimitModel ------------------------------
(* The loops of theil_sen.hh and repeated_median.hh on abscissas x and work     *)
(* arrays of a capacity, one assignment at a time: all assignments are inside   *)
(* of the arrays, also when there are more points than fit, and what is in them *)
(* is what Lines.tla says.  In the arrays are pairs of numbers of points.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Caps, Most, Xs      \* capacities, largest number of points, abscissas
VARIABLES cap, x, kind, i, j, temp, outer, pc, hist
vars == <<cap, x, kind, i, j, temp, outer, pc, hist>>
Size == (cap * (cap - 1)) \div 2
Init ==
  /\ cap \in Caps /\ x = <<>> /\ kind \in {"theil", "repeated"} /\ pc = "points"
  /\ i = 1 /\ j = 1 /\ temp = <<>> /\ outer = <<>> /\ hist = <<>>
\* The points are given; the first two of them differ
Point ==
  /\ pc = "points" /\ Len(x) < Most
  /\ \E v \in Xs : (Len(x) = 1 => v # x[1]) /\ x' = Append(x, v) /\ hist' = Append(hist, <<"x", v>>)
  /\ UNCHANGED <<cap, kind, i, j, temp, outer, pc>>
Start ==
  /\ pc = "points" /\ Len(x) > 1
  /\ pc' = "loop" /\ i' = 1 /\ j' = IF kind = "theil" THEN 2 ELSE 1
  /\ UNCHANGED <<cap, x, kind, temp, outer, hist>>
Fit == IF kind = "theil" \/ Len(x) < cap THEN Len(x) ELSE cap         \* points in use
Pair ==
  /\ pc = "loop"
  /\ IF kind = "theil" THEN
       IF Len(temp) < Size /\ i <= Fit THEN
         IF Len(temp) < Size /\ j <= Fit
         THEN /\ temp' = IF x[j] # x[i] THEN Append(temp, <<i, j>>) ELSE temp
              /\ j' = j + 1 /\ UNCHANGED <<i, outer, pc>>
         ELSE i' = i + 1 /\ j' = i + 2 /\ UNCHANGED <<temp, outer, pc>>
       ELSE pc' = "residuals" /\ i' = 1 /\ outer' = temp /\ temp' = <<>> /\ UNCHANGED j
     ELSE
       IF i <= Fit THEN
         IF j <= Fit
         THEN /\ temp' = IF x[j] # x[i] THEN Append(temp, <<i, j>>) ELSE temp
              /\ j' = j + 1 /\ UNCHANGED <<i, outer, pc>>
         ELSE /\ outer' = Append(outer, temp) /\ temp' = <<>>
              /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED pc
       ELSE pc' = "done" /\ UNCHANGED <<i, j, temp, outer>>
  /\ UNCHANGED <<cap, x, kind, hist>>
Residual ==
  /\ pc = "residuals"
  /\ IF Len(temp) < Size /\ i <= Fit
     THEN temp' = Append(temp, i) /\ i' = i + 1 /\ UNCHANGED pc
     ELSE pc' = "done" /\ UNCHANGED <<temp, i>>
  /\ UNCHANGED <<cap, x, kind, j, outer, hist>>
Next == Point \/ Start \/ Pair \/ Residual
Spec == Init /\ [][Next]_vars
\* Inside of the arrays: temp_ has Size places, inner_ one less than the capacity, outer_ the capacity
Inside ==
  IF kind = "theil" THEN Len(temp) <= Size
  ELSE Len(temp) <= cap - 1 /\ Len(outer) <= cap
RECURSIVE AllPairs(_, _)
AllPairs(a, b) ==
  IF a > Len(x) THEN <<>> ELSE IF b > Len(x) THEN AllPairs(a + 1, a + 2)
  ELSE (IF x[a] # x[b] THEN << <<a, b>> >> ELSE <<>>) \o AllPairs(a, b + 1)
Fitting(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Others(a, n) == SelectSeq([b \in 1..n |-> <<a, b>>], LAMBDA p : x[p[1]] # x[p[2]])
AsDefined == pc = "done" =>
  IF kind = "theil"
  THEN /\ outer = Fitting(AllPairs(1, 2), Size)
       /\ temp = Fitting([a \in 1..Len(x) |-> a], Size)
       /\ Len(outer) > 0
  ELSE LET n == IF Len(x) < cap THEN Len(x) ELSE cap IN
       /\ outer = [a \in 1..n |-> Others(a, n)]
       /\ \A a \in 1..n : Len(outer[a]) > 0
\* Nothing is left out unless there are more points than fit
AllThere == pc = "done" /\ Len(x) <= cap /\ cap > 2 =>
  IF kind = "theil" THEN outer = AllPairs(1, 2) /\ Len(temp) = Len(x) ELSE Len(outer) = Len(x)
View == <<cap, x, kind, i, j, temp, outer, pc>>
Emit == pc = "points" /\ pc' = "loop" /\ kind = "theil" => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
