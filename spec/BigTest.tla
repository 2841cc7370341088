-------------------------------- MODULE BigTest --------------------------------
(* Compares the arbitrary-precision overrides of the operators of Big with the  *)
(* definitions in Big.tla, which the module BigDef repeats under a name that is *)
(* not overridden, where 32 bits are enough for both.                           *)
EXTENDS Big, TLC
D == INSTANCE BigDef
CONSTANT Top
VARIABLES a, b
Init == a \in -Top..Top /\ b = 0 - Top
Next == b < Top /\ b' = b + 1 /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
Arithmetic ==
  /\ BEq(a ++ b, a + b) /\ BEq(a -- b, a - b) /\ BEq(a ** b, a * b)
  /\ (b > 0) => BEq(a // b, a \div b) /\ BEq(a %% b, a % b)
Order ==
  /\ (a \prec b) = (a < b) /\ (a \preceq b) = (a <= b) /\ (a \succ b) = (a > b) /\ (a \succeq b) = (a >= b)
  /\ BEq(a, b) = (a = b)
  /\ BEq(BNeg(a), D!BNeg(a)) /\ BEq(BAbs(a), D!BAbs(a)) /\ BEq(BMax(a, b), D!BMax(a, b)) /\ BEq(BMin(a, b), D!BMin(a, b))
Shifts == (b >= 0 /\ b <= 12) =>
  /\ BEq(Shl(a, b), D!Shl(a, b)) /\ BEq(Shr(a, b), D!Shr(a, b))
  /\ BEq(RoundShr(a, b), D!RoundShr(a, b))
Bits == BEq(BLen(a), D!BLen(a)) /\ (a >= 0 => BEq(BSqrt(a), D!BSqrt(a))) /\ ToInt(a) = a
s == <<a, b, 3, a - b, -2>>
t == <<b, 2, a, 7, a + b>>
u == <<a, -1, b>>
Seqs ==
  /\ BEq(Dot(s, t), D!Dot(s, t))
  /\ BEq(BSum(s), D!BSum(s)) /\ BEq(BAbsSum(s), D!BAbsSum(s)) /\ BEq(BMaxAbs(s), D!BMaxAbs(s))
  /\ BEq(BMaxOf(s), D!BMaxOf(s)) /\ BEq(BMinOf(s), D!BMinOf(s))
  /\ \A i \in 1..3 : BEq(Convolve(u, t)[i], D!Convolve(u, t)[i]) /\ Len(Convolve(u, t)) = 3
  /\ \A k \in -3..7 : BEq(DotMod(s, u, k), D!DotMod(s, u, k))
Sorted == (a % 5 = 0) => \A i \in 1..3 : BEq(BSort(u)[i], D!BSort(u)[i])
\* Decoders, which have no definition: numbers written in both notations
Decoded ==
  /\ BEq(BInt(ToString(a)), a)
  /\ BEq(FltAt("0x1.8p+4", 3), 192) /\ BEq(FltAt("-0x1.8p-4", 6), -6) /\ BEq(FltAt("0x0p+0", 9), 0)
  /\ BEq(FltAt("0x1.000002p-1", 2), 2) /\ IsFinite("0x1p+0") /\ ~IsFinite("inf") /\ ~IsFinite("-nan")
  /\ BEq(FltSeqAt(<<"0x1p+1", "-0x1p+0">>, 1)[2], -2)
=============================================================================
