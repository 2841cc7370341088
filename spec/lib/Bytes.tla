--------------------------------- MODULE Bytes ---------------------------------
(* Files as sequences of bytes, 0..255, and what is encoded in them.            *)
EXTENDS Big
Has4(b, i, s) == Len(b) >= i + 3 /\ SubSeq(b, i, i + 3) = s
\* Little-endian unsigned and signed numbers of n bytes from position i (from 1)
RECURSIVE LE(_, _, _)
LE(b, i, n) == IF n = 0 THEN 0 ELSE b[i] ++ (256 ** LE(b, i + 1, n - 1))
LES(b, i, n) == LET v == LE(b, i, n) IN IF b[i + n - 1] >= 128 THEN v -- Shl(1, 8 * n) ELSE v
\* IEEE 754 single precision, little-endian, finite, with k >= 150 bits behind the point
Float32(b, i, k) ==
  LET v == LE(b, i, 4)
      e == ToInt((v // Shl(1, 23)) %% 256)
      m == v %% Shl(1, 23)
      a == IF e = 0 THEN Shl(m, k - 149) ELSE Shl(m ++ Shl(1, 23), k + e - 150)
  IN IF b[i + 3] >= 128 THEN BNeg(a) ELSE a
=============================================================================
