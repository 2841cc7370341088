---------------------------------- MODULE Quick --------------------------------
(* What sorting and selecting mean (quick.hh).                                  *)
EXTENDS Big
\* The only possible result of sorting
Sorted(s) == BSort(s)
\* The array out is a possible result of selecting rank k (from 0) in the array in
Selected(in, out, k) ==
  /\ Sorted(in) = Sorted(out)                          \* a permutation
  /\ out[k+1] = Sorted(in)[k+1]
  /\ \A i \in 1..k : out[i] <= out[k+1]
  /\ \A i \in k+2..Len(out) : out[k+1] <= out[i]
=============================================================================
