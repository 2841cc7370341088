---------------------------------- MODULE Big ----------------------------------
(* Integer arithmetic without a width limit, and binary fixed-point reals on    *)
(* top of it.                                                                   *)
(*                                                                              *)
(* Semantically every operator below is ordinary integer arithmetic of TLA+.    *)
(* TLC's own integers are 32-bit and report an error on overflow, so the Java   *)
(* class dspbig.Big overrides these definitions with arbitrary-precision ones   *)
(* (java.math.BigInteger).  BigTest.tla compares the overrides with the         *)
(* definitions written here wherever 32 bits are enough.                        *)
EXTENDS Integers, Sequences

a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b                      \* floor division, b > 0
a %% b == a % b
a \prec b == a < b
a \preceq b == a <= b
a \succ b == a > b
a \succeq b == a >= b
BEq(a, b) == a = b
BNeg(a) == 0 - a
BAbs(a) == IF a < 0 THEN 0 - a ELSE a
BMax(a, b) == IF a < b THEN b ELSE a
BMin(a, b) == IF a < b THEN a ELSE b
Shl(a, k) == a * 2^k
Shr(a, k) == a \div 2^k                 \* floor
BLen(a) == CHOOSE k \in 0..31 : BAbs(a) < 2^k /\ (k = 0 \/ BAbs(a) >= 2^(k-1))   \* bits
BSqrt(a) == CHOOSE r \in 0..a : r*r <= a /\ a < (r+1)*(r+1)
\* Nearest integer to a / 2^k, ties to even
RoundShr(a, k) ==
  LET d == 2^k
      q == a \div d
      r == a % d
  IN IF 2*r < d THEN q ELSE IF 2*r > d THEN q + 1 ELSE q + (q % 2)
ToInt(a) == a                           \* identity; used where the value fits 32 bits
\* Sum over i of s[i] * t[i]
RECURSIVE DotFrom(_, _, _)
DotFrom(s, t, i) == IF i > Len(s) THEN 0 ELSE s[i] * t[i] + DotFrom(s, t, i+1)
Dot(s, t) == DotFrom(s, t, 1)
\* The sequence itself; has TLC evaluate its elements once and for all
BSeq(s) == s
\* Sum over i of s[i+1] times element ik of t, which is continued periodically; i from 0
RECURSIVE DotModFrom(_, _, _, _)
DotModFrom(s, t, k, i) ==
  IF i = Len(s) THEN 0 ELSE s[i + 1] * t[((i * k) % Len(t)) + 1] + DotModFrom(s, t, k, i + 1)
DotMod(s, t, k) == DotModFrom(s, t, k, 0)
\* Dot(s, t') for each stretch t' of t of the length of s, in order
Convolve(s, t) ==
  [i \in 1..(IF Len(t) >= Len(s) THEN Len(t) - Len(s) + 1 ELSE 0) |-> Dot(s, SubSeq(t, i, i + Len(s) - 1))]
\* Sum of the elements of s
RECURSIVE BSumFrom(_, _)
BSumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + BSumFrom(s, i+1)
BSum(s) == BSumFrom(s, 1)
RECURSIVE BAbsSumFrom(_, _)
BAbsSumFrom(s, i) == IF i > Len(s) THEN 0 ELSE BAbs(s[i]) + BAbsSumFrom(s, i+1)
BAbsSum(s) == BAbsSumFrom(s, 1)
RECURSIVE BMaxAbsFrom(_, _)
BMaxAbsFrom(s, i) == IF i > Len(s) THEN 0 ELSE BMax(BAbs(s[i]), BMaxAbsFrom(s, i+1))
BMaxAbs(s) == BMaxAbsFrom(s, 1)

\* Largest and smallest element, and the elements in non-decreasing order
BMaxOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= m
BMinOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
BSort(s) ==
  CHOOSE t \in [DOMAIN s -> {s[i] : i \in DOMAIN s}] :
    /\ \A i, j \in DOMAIN s : i < j => t[i] <= t[j]
    /\ \A v \in {s[i] : i \in DOMAIN s} :
         \E f \in [{i \in DOMAIN s : s[i] = v} -> {i \in DOMAIN t : t[i] = v}] :
           /\ \A i, j \in DOMAIN f : f[i] = f[j] => i = j
           /\ \A k \in {i \in DOMAIN t : t[i] = v} : \E i \in DOMAIN f : f[i] = k

\* Decoding of the trace notation.  A decimal integer of any length is written as
\* a string of digits, a floating-point value as C's hexadecimal "%a".  These are
\* decoders, defined by the Java override only.
BInt(str) == CHOOSE n \in Int : TRUE      \* decimal digits
IsFinite(str) == CHOOSE b \in BOOLEAN : TRUE
\* round(value(str) * 2^k); a NaN or an infinity decodes to a number far outside
\* the range of every legal value, so that no comparison with it succeeds
FltAt(str, k) == CHOOSE n \in Int : TRUE
\* FltAt of each element of a sequence of strings
FltSeqAt(s, k) == [i \in 1..Len(s) |-> FltAt(s[i], k)]
=============================================================================
