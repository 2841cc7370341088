-------------------------------- MODULE Faults ---------------------------------
(* What is left in a file when the device takes no more, or when the program    *)
(* ends before the file is complete.                                            *)
(*                                                                              *)
(* A recording is first written as a header, in which the length is marked as   *)
(* unknown, and data.  It is completed by putting the length into the header.   *)
EXTENDS Integers, Sequences
\* got: n bytes behind the header, of which the first same ones are as in the whole
\* file.  marked: the header gives a length.
Kept(n, same) == n <= 0 \/ n = same
Honest(marked, n, whole) == marked => n = whole
\* What a writer says about itself, after each call: not good once a write failed, and
\* never good again
Consistent(goods) == \A i, j \in 1..Len(goods) : i < j /\ goods[j] => goods[i]
=============================================================================
