-------------------------------- MODULE PadModel -------------------------------
(* Relocation of a spectrum of M bins to N bins in place, step by step as the   *)
(* code does it.  A bin is the sequence of what it holds: bin numbers of the    *)
(* input spectrum with weights in halves.                                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Top
VARIABLES M, N, tmp, pc, i
vars == <<M, N, tmp, pc, i>>
Garbage == <<-1, -1>>
Zero == <<0, 0>>
Init ==
  /\ M \in 1..Top /\ N \in 2..(3 * Top) /\ M < N
  /\ tmp = [k \in 0..(N-1) |-> IF k < M THEN <<k, 2>> ELSE Garbage]
  /\ pc = "move" /\ i = M - 1
Move ==
  /\ pc = "move"
  /\ IF i > M \div 2 THEN tmp' = [tmp EXCEPT ![N - M + i] = tmp[i]] /\ i' = i - 1 /\ pc' = pc
     ELSE pc' = "clear" /\ i' = (M \div 2) + 1 /\ tmp' = tmp
  /\ UNCHANGED <<M, N>>
Clear ==
  /\ pc = "clear"
  /\ IF i < N - (M - 1) \div 2 THEN tmp' = [tmp EXCEPT ![i] = Zero] /\ i' = i + 1 /\ pc' = pc
     ELSE pc' = "split" /\ UNCHANGED <<tmp, i>>
  /\ UNCHANGED <<M, N>>
Halve ==
  /\ pc = "split"
  /\ LET h == <<M \div 2, 1>> IN
     tmp' = IF M % 2 = 0 THEN [tmp EXCEPT ![M \div 2] = h, ![N - M \div 2] = h] ELSE tmp
  /\ pc' = "done" /\ UNCHANGED <<M, N, i>>
Next == Move \/ Clear \/ Halve
Spec == Init /\ [][Next]_vars
\* Frequencies: bin k of M stands for k or k-M
Expected(k) ==
  LET h == (M - 1) \div 2 IN
  IF k <= h THEN <<k, 2>>
  ELSE IF k >= N - h THEN <<M - (N - k), 2>>
  ELSE IF M % 2 = 0 /\ (2 * k = M \/ 2 * (N - k) = M) THEN <<M \div 2, 1>>
  ELSE Zero
Right == (pc = "done") => \A k \in 0..(N-1) : tmp[k] = Expected(k) \/ (Expected(k)[2] = 0 /\ tmp[k] = Zero)
=============================================================================
