-------------------------------- MODULE FftModel -------------------------------
(* The mixed-radix recursion of the code: how a size is split, which inputs and *)
(* which twiddle factors each stage takes.  The input is an impulse at position *)
(* n, so that every value on the way is zero or a power of the N-th root of     *)
(* unity; a value is represented by its exponent, and zero by -1.  One state    *)
(* for each pair of n and N.  Output k must be the power nk.                    *)
EXTENDS Integers, Sequences, TLC
CONSTANT Top
Primes == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31}
RECURSIVE Smooth(_)
Smooth(N) == N = 1 \/ \E p \in Primes : N % p = 0 /\ Smooth(N \div p)
VARIABLES n, N
Init == N \in {m \in 1..Top : Smooth(m)} /\ n = 0
Next == n < N - 1 /\ n' = n + 1 /\ UNCHANGED N
Spec == Init /\ [][Next]_<<n, N>>

Powers(b) == {b^i : i \in 0..(IF b = 2 THEN 30 ELSE IF b = 4 THEN 15 ELSE 10)}
Split(m) ==
  IF m % 31 = 0 THEN 31 ELSE IF m % 29 = 0 THEN 29 ELSE IF m % 23 = 0 THEN 23
  ELSE IF m % 19 = 0 THEN 19 ELSE IF m % 17 = 0 THEN 17 ELSE IF m % 13 = 0 THEN 13
  ELSE IF m % 11 = 0 THEN 11 ELSE IF m % 7 = 0 THEN 7 ELSE IF m % 5 = 0 THEN 5
  ELSE IF m % 3 = 0 THEN 3
  ELSE IF m % 8 = 0 /\ m \in Powers(8) THEN 8
  ELSE IF m % 8 = 0 /\ (m \div 2) \in Powers(8) THEN 2
  ELSE IF m % 4 = 0 /\ m \in Powers(4) THEN 4
  ELSE IF m % 2 = 0 THEN 2 ELSE 1
\* Sum of values of which at most one is not zero
One1(s) == LET S == {i \in DOMAIN s : s[i] /= -1} IN
  IF S = {} THEN -1 ELSE IF \E i \in S : S = {i} THEN s[CHOOSE i \in S : TRUE] ELSE Assert(FALSE, "two terms")
Times(v, e) == IF v = -1 THEN -1 ELSE (v + e) % N
\* The factor at an index of the table, which has N elements
Factor(l) == IF l >= 0 /\ l < N THEN l ELSE Assert(FALSE, "beyond the table")
\* Transform of r values by definition; the r-th root is the power N/r
Kernel(v, r) == TLCEval([j \in 0..(r-1) |-> One1([i \in 0..(r-1) |-> Times(v[i], i * j * (N \div r))])])
RECURSIVE Dit(_, _, _, _)
Dit(radix, bins, stride, first) ==       \* first: index of the first input
  IF bins = 1 THEN [k \in {0} |-> IF first = n THEN 0 ELSE -1]
  ELSE IF bins = radix
  THEN Kernel([i \in 0..(radix-1) |-> IF first + i * stride = n THEN 0 ELSE -1], radix)
  ELSE LET q == bins \div radix
           sub == TLCEval([i \in 0..(radix-1) |-> Dit(Split(q), q, radix * stride, first + i * stride)])
           \* butterfly k0: outputs k0, k0 + q, ..., of the values there times the factors
           fly == TLCEval([k0 \in 0..(q-1) |-> Kernel([i \in 0..(radix-1) |-> Times(sub[i][k0], Factor(i * k0 * stride))], radix)])
       IN TLCEval([k \in 0..(bins-1) |-> fly[k % q][k \div q]])
Right == LET out == Dit(Split(N), N, 1, 0) IN \A k \in 0..(N-1) : out[k] = (n * k) % N

\* The kernels fold cosines and sines of jk/r onto 1..(r-1)/2
Fold(j, k, r) == LET m == (j * k) % r IN IF m <= (r - 1) \div 2 THEN <<m, 1>> ELSE <<r - m, -1>>
Folded == (n = 0 /\ N \in Primes \ {2}) =>
  \A k \in 1..((N-1) \div 2) :
    \* a permutation of the pairs, and the conjugate output takes the sines negated
    /\ {Fold(j, k, N)[1] : j \in 1..((N-1) \div 2)} = 1..((N-1) \div 2)
    /\ \A j \in 1..((N-1) \div 2) : Fold(j, N - k, N) = <<Fold(j, k, N)[1], 0 - Fold(j, k, N)[2]>>
=============================================================================
