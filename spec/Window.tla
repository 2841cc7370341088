--------------------------------- MODULE Window --------------------------------
(* The last n samples of a stream, oldest first: the state shared by the delay  *)
(* line, the bip buffer, the sliding window accelerator, the moving extrema and *)
(* the moving averages.                                                         *)
EXTENDS Integers, Sequences

Initial(n, init) == [i \in 1..n |-> init]
\* The window after one more sample
Slide(w, v) == Append(Tail(w), v)
\* The window after the samples vs
Slides(w, vs) == LET a == w \o vs IN SubSeq(a, Len(a) - Len(w) + 1, Len(a))
\* The window before the i-th sample of vs, and after it
Before(w, vs, i) == LET a == w \o vs IN SubSeq(a, i, i + Len(w) - 1)
After(w, vs, i) == Before(w, vs, i + 1)
=============================================================================
