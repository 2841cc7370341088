----------------------------- MODULE QuadratureModel ---------------------------
(* The shift registers of the code against plain convolution, symbolically: a   *)
(* register holds the number and the sign of the sample in it, and an output is *)
(* the set of its terms <<coefficient, sample, sign>>.  Both filters are linear *)
(* and the samples arbitrary, so this decides them for all inputs.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Taps, Runs
VARIABLES T, real, imag, hreal, sign, k, hout, cre, cim
vars == <<T, real, imag, hreal, sign, k, hout, cre, cim>>
None == << -1, 1 >>
C == (T - 1) \div 2
Q == (T - 1) \div 4
Init ==
  /\ T \in Taps
  /\ hreal = [i \in 0..(T-1) |-> None] /\ real = [i \in 0..(Q-1) |-> None] /\ imag = [i \in 0..(C-1) |-> None]
  /\ sign = 1 /\ k = 0 /\ hout = {} /\ cre = {} /\ cim = {}
Shift(r, n, v) == [i \in 0..(n-1) |-> IF i < n - 1 THEN r[i + 1] ELSE v]
\* a term: offset from the center as the coefficient, times s
Term(d, r, s) == IF r = None THEN {} ELSE { << d, r[1], s * r[2] >> }
\* the transformer gets sample k, the converter samples 2k and 2k+1, of opposite sign every other call
HilbertTerms ==
  UNION { Term(2*i+1, hreal[C - (2*i+1)], 1) \cup Term(2*i+1, hreal[C + (2*i+1)], -1) : i \in 0..(Q-1) }
Next ==
  /\ k < Runs * T /\ k' = k + 1 /\ UNCHANGED T
  /\ hout' = HilbertTerms
  /\ hreal' = Shift(hreal, T, << k, 1 >>)
  /\ sign' = 0 - sign
  /\ cre' = Term(0, real[0], 1)
  /\ real' = Shift(real, Q, << 2*k + 1, sign >>)
  /\ imag' = Shift(imag, C, << 2*k, sign >>)
  /\ cim' = UNION { Term(2*i+1, imag'[Q-1-i], 1) \cup Term(2*i+1, imag'[Q+i], 1) : i \in 0..(Q-1) }
Spec == Init /\ [][Next]_vars
\* Convolutions: sample m contributes to the result around the center m0 with the tap of offset
\* m0 - m, within half of the length
Odd(d) == d % 2 = 1
Abs(d) == IF d < 0 THEN 0 - d ELSE d
\* the last call was number k - 1; one call late
HilbertSpec == LET m0 == k - 2 - C IN
  { << Abs(m0 - m), m, IF m0 > m THEN 1 ELSE -1 >> : m \in {j \in 0..(k - 2) : Abs(m0 - j) <= C /\ Odd(Abs(m0 - j))} }
HilbertRight == k > 0 => hout = HilbertSpec
\* i(-i)^m
Real(m) == CASE m % 4 = 1 -> 1 [] m % 4 = 3 -> -1 [] OTHER -> 0
Imag(m) == CASE m % 4 = 0 -> 1 [] m % 4 = 2 -> -1 [] OTHER -> 0
\* the half-band response has the center and the odd offsets only
HalfBand(d) == d = 0 \/ (Abs(d) <= C /\ Odd(Abs(d)))
CdcSpec(part(_)) == LET m0 == 2*k - 1 - C IN
  { << Abs(m0 - m), m, part(m) >> : m \in {j \in 0..(2*k - 1) : HalfBand(m0 - j) /\ part(j) # 0} }
CdcRight == k > 0 => cre = CdcSpec(Real) /\ cim = CdcSpec(Imag)
=============================================================================
