------------------------------- MODULE QuickModel ------------------------------
(* The implementation of quick.hh, step by step: partitioning around the median *)
(* of five in three ways, insertion sort for ranges shorter than Short (32 in   *)
(* the code, smaller here so that short arrays are partitioned).  TLC runs it   *)
(* on every array of the given length, sorting and selecting every rank.        *)
EXTENDS Quick, TLC
CONSTANTS N, Values, Short
VARIABLES a0, a,       \* the array as given, and now (indices 0..N-1)
          k,           \* the rank to select, or -1 for sorting
          todo,        \* ranges still to be sorted
          lo, hi, i,   \* the partition in progress
          l0, h0, pivot, pc
vars == <<a0, a, k, todo, lo, hi, i, l0, h0, pivot, pc>>

Swap(f, x, y) == [f EXCEPT ![x] = f[y], ![y] = f[x]]
\* The five-element network of the code
Med5(A0, p, q, r, s, t) ==
  LET A1 == IF A0[r] < A0[p] THEN Swap(A0, p, r) ELSE A0
      A2 == IF A1[s] < A1[q] THEN Swap(A1, q, s) ELSE A1
      A3 == IF A2[s] < A2[r] THEN Swap(Swap(A2, r, s), p, q) ELSE A2
      A4 == IF A3[t] < A3[q] THEN Swap(A3, q, t) ELSE A3
      A5 == IF A4[t] < A4[r]
            THEN LET B == Swap(A4, r, t) IN IF B[r] < B[p] THEN Swap(B, p, r) ELSE B
            ELSE IF A4[r] < A4[q] THEN Swap(A4, q, r) ELSE A4
  IN A5
Seq0(f) == [j \in 1..N |-> f[j-1]]
SortRange(f, l, h) ==
  LET s == Sorted([j \in 1..(h-l+1) |-> f[l+j-1]]) IN
  [x \in 0..N-1 |-> IF x >= l /\ x <= h THEN s[x-l+1] ELSE f[x]]

Init ==
  /\ a0 \in [0..N-1 -> Values] /\ a = a0
  /\ k \in -1..N-1
  /\ todo = <<<<0, N-1>>>>
  /\ lo = 0 /\ hi = 0 /\ i = 0 /\ l0 = 0 /\ h0 = 0 /\ pivot = 0
  /\ pc = "next"
Take ==
  /\ pc = "next"
  /\ todo # <<>>
  /\ LET l == todo[1][1]
         h == todo[1][2] IN
     IF l >= h
     THEN todo' = Tail(todo) /\ UNCHANGED <<a, lo, hi, i, l0, h0, pivot, pc>>
     ELSE IF h - l < Short
     THEN /\ a' = SortRange(a, l, h) /\ todo' = Tail(todo)
          /\ UNCHANGED <<lo, hi, i, l0, h0, pivot, pc>>
     ELSE LET half == (h - l) \div 2
              quarter == (h - l) \div 4
              m == l + half IN
          /\ a' = Med5(a, l, l + quarter, m, m + quarter, h)
          /\ pivot' = a'[m]
          /\ lo' = l /\ hi' = h /\ i' = l /\ l0' = l /\ h0' = h
          /\ pc' = "part" /\ todo' = Tail(todo)
  /\ UNCHANGED <<a0, k>>
Part ==
  /\ pc = "part" /\ i <= hi
  /\ IF a[i] < pivot THEN a' = Swap(a, i, lo) /\ i' = i + 1 /\ lo' = lo + 1 /\ UNCHANGED hi
     ELSE IF a[i] > pivot THEN a' = Swap(a, i, hi) /\ hi' = hi - 1 /\ UNCHANGED <<i, lo>>
     ELSE i' = i + 1 /\ UNCHANGED <<a, lo, hi>>
  /\ UNCHANGED <<a0, k, todo, l0, h0, pivot, pc>>
Parted ==
  /\ pc = "part" /\ i > hi
  /\ todo' = IF k = -1 THEN <<<<l0, lo-1>>, <<hi+1, h0>>>> \o todo
             ELSE IF k < lo THEN <<<<l0, lo-1>>>>
             ELSE IF k > hi THEN <<<<hi+1, h0>>>>
             ELSE <<>>
  /\ pc' = "next"
  /\ UNCHANGED <<a0, a, k, lo, hi, i, l0, h0, pivot>>
Next == Take \/ Part \/ Parted
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "next" /\ todo = <<>>
Correct == Done =>
  IF k = -1 THEN Seq0(a) = Sorted(Seq0(a0)) ELSE Selected(Seq0(a0), Seq0(a), k)
\* While partitioning: smaller before lo, equal up to i, larger behind hi
Partitioning == pc = "part" =>
  /\ \A x \in l0..lo-1 : a[x] < pivot
  /\ \A x \in lo..i-1 : a[x] = pivot
  /\ \A x \in hi+1..h0 : a[x] > pivot
Shrinks == pc = "part" /\ i > hi => lo <= hi    \* the pivot itself is never left over
Terminates == <>Done
=============================================================================
