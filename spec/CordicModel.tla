------------------------------- MODULE CordicModel -----------------------------
(* The rotations by arc tangents of powers of two, on 8-bit integers. One state *)
(* for each iteration of each start; the result is compared with the angle.     *)
EXTENDS Cordic, TLC
CONSTANT Span                                    \* x in steps of Span
BITS == 8
BYTES == 1
FAC == 256
\* round(FAC * atan(2^-i) / Pi), from the series
Lut(i) == ToInt(Shr(Quot(Shl(FAC ** AtanFrac(1, 2^i), F), Pi) ++ HalfR, F))
LUT == [i \in 0..BITS-1 |-> Lut(i)]
ASSUME LUT[0] = 64 /\ LUT[1] = 38
VARIABLES x, y, i, angle, real, imag
vars == <<x, y, i, angle, real, imag>>
Init ==
  /\ x \in {v \in -128..127 : v % Span = 0} \cup {-128, -1, 0, 1, 127}
  /\ y \in -128..127
  /\ i = 0 /\ angle = 0
  /\ real = (IF x < 0 THEN 0 - 2 * x ELSE 2 * x)
  /\ imag = 2 * y
Next ==
  /\ i < BITS
  /\ i' = i + 1
  /\ IF imag < 0
     THEN /\ angle' = angle - LUT[i]
          /\ real' = real - (imag \div 2^i)
          /\ imag' = imag + (real \div 2^i)
     ELSE /\ angle' = angle + LUT[i]
          /\ real' = real + (imag \div 2^i)
          /\ imag' = imag - (real \div 2^i)
  /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
Result == (IF x < 0 THEN FAC - angle ELSE angle) \div 2^BYTES
\* The vector grows by no more than the product of the secants, and stays on the right
Grows == real >= 0 /\ real <= 900 /\ imag >= -900 /\ imag <= 900
Right == (i = BITS /\ (x # 0 \/ y # 0)) => Fine(Result, y, x, 8)
=============================================================================
