---------------------------------- MODULE Wav ----------------------------------
(* WAV files as this library reads and writes them: the chunks RIFF, fmt, fact  *)
(* (with the longer form of fmt) and data, in this order.                       *)
EXTENDS Bytes
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT == <<102, 109, 116, 32>>
FACT == <<102, 97, 99, 116>>
DATA == <<100, 97, 116, 97>>

\* A header that can be accepted: the tags, the sizes of its chunks, the format and
\* their consistency.  A size of the data which is not positive as a signed number
\* means that it is unknown.
FmtSize(b) == LE(b, 17, 4)
Overhead(b) == IF BEq(FmtSize(b), 18) THEN 58 ELSE 44
Format(b) == ToInt(LE(b, 21, 2))
Channels(b) == ToInt(LE(b, 23, 2))
Rate(b) == LES(b, 25, 4)
ByteRate(b) == LES(b, 29, 4)
BlockAlign(b) == ToInt(LE(b, 33, 2))
Bits(b) == ToInt(LE(b, 35, 2))
FactFrames(b) == LES(b, 47, 4)
DataSize(b) == LES(b, Overhead(b) - 3, 4)
ChunkSize(b) == LES(b, 5, 4)
KnownSize(b) == DataSize(b) \succ 0 /\ ChunkSize(b) \succ 0
WellFormed(b) ==
  /\ Len(b) >= 44
  /\ Has4(b, 1, RIFF) /\ Has4(b, 9, WAVE) /\ Has4(b, 13, FMT)
  /\ BEq(FmtSize(b), 16) \/ BEq(FmtSize(b), 18)
  /\ Len(b) >= Overhead(b)
  /\ \/ Bits(b) \in {8, 16} /\ Format(b) = 1
     \/ Bits(b) = 32 /\ Format(b) = 3
  /\ Channels(b) \in 1..32767
  /\ BlockAlign(b) = Channels(b) * (Bits(b) \div 8)
  /\ BEq((Rate(b) ** BlockAlign(b)) %% Shl(1, 32), ByteRate(b) %% Shl(1, 32))
  /\ BEq(FmtSize(b), 18) => BEq(LE(b, 37, 2), 0) /\ Has4(b, 39, FACT) /\ BEq(LE(b, 43, 4), 4)
  /\ Has4(b, Overhead(b) - 7, DATA)
  /\ KnownSize(b) => BEq(DataSize(b) ++ (Overhead(b) - 8), ChunkSize(b))
Frames(b) ==
  IF ~KnownSize(b) THEN -1
  ELSE IF BEq(FmtSize(b), 18) THEN FactFrames(b)
  ELSE DataSize(b) // BlockAlign(b)

\* Full scale, midpoint and limits of the integer formats
Full(bits) == IF bits = 8 THEN 127 ELSE 32767
Mid(bits) == IF bits = 8 THEN 128 ELSE 0
Lowest(bits) == IF bits = 8 THEN 0 ELSE -32768
Highest(bits) == IF bits = 8 THEN 255 ELSE 32767
\* The code of a sample, at position i
Code(b, i, bits) == IF bits = 8 THEN b[i] ELSE ToInt(LES(b, i, 2))
\* code is the level nearest to the value x, with k bits behind the point, within tol
Quantized(code, x, bits, k, tol) ==
  LET v == Shl(Mid(bits), k) ++ (Full(bits) ** x)
      c == BMin(BMax(v, Shl(Lowest(bits), k)), Shl(Highest(bits), k))
  IN code >= Lowest(bits) /\ code <= Highest(bits) /\ BAbs(Shl(code, k) -- c) \preceq Shl(1, k - 1) ++ tol
=============================================================================
