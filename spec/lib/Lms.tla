----------------------------------- MODULE Lms ---------------------------------
(* Normalized least mean squares.  Coefficients and the last inputs are pairs   *)
(* of sequences, real and imaginary parts, of the same length; coefficient i    *)
(* belongs to input i, the oldest one first.  All values are over 2^F.          *)
EXTENDS Cplx
Len2(s) == Len(s[1])
Pair(s, i) == << s[1][i], s[2][i] >>
Slide(h, x) == << BSeq(Append(SubSeq(h[1], 2, Len2(h)), x[1])), BSeq(Append(SubSeq(h[2], 2, Len2(h)), x[2])) >>
\* Sum of the products, and what is added up in it
Predict(f, h) ==
  << Shr(Dot(f[1], h[1]) -- Dot(f[2], h[2]), F), Shr(Dot(f[1], h[2]) ++ Dot(f[2], h[1]), F) >>
Abs2(s) == << BSeq([i \in 1..Len(s[1]) |-> BAbs(s[1][i])]), BSeq([i \in 1..Len(s[2]) |-> BAbs(s[2][i])]) >>
PredictMag(f, h) ==
  LET a == Abs2(f)
      b == Abs2(h)
  IN << Shr(Dot(a[1], b[1]) ++ Dot(a[2], b[2]), F), Shr(Dot(a[1], b[2]) ++ Dot(a[2], b[1]), F) >>
Energy(h) == Dot(h[1], h[1]) ++ Dot(h[2], h[2])                     \* of twice the scale
Error(f, h, d) == CSub(d, Predict(f, h))
\* How much coefficient i moves along the conjugate of its input
Move(h, e, mu, energy, i) ==
  LET z == CMul(e, CConj(Pair(h, i))) IN << (mu ** z[1]) // energy, (mu ** z[2]) // energy >>
MoveMag(h, e, mu, energy, i) ==
  LET z == MulMag(e, Pair(h, i)) IN << BAbs(mu ** z[1]) // energy, BAbs(mu ** z[2]) // energy >>
\* Within the roundings of p significant bits
ErrorTol(f, h, d, p) ==
  LET m == PredictMag(f, h)
      c == 2 * Len2(f) + 4
  IN << Relative(BAbs(d[1]) ++ m[1], c, p) ++ 4, Relative(BAbs(d[2]) ++ m[2], c, p) ++ 4 >>
ErrorOk(f, h, d, e, p) ==
  LET w == Error(f, h, d)
      t == ErrorTol(f, h, d, p)
  IN \A j \in 1..2 : Near(e[j], w[j], t[j])
\* The error the coefficients move by may be rounded otherwise than the one returned
MovesOk(f, h, d, e, mu, g, p) ==
  LET energy == Energy(h) IN
  IF BEq(energy, 0) THEN \A i \in 1..Len2(f) : CEq(Pair(f, i), Pair(g, i))
  ELSE \A i \in 1..Len2(f) :
         LET v == Move(h, e, mu, energy, i)
             m == MoveMag(h, e, mu, energy, i)
             t == MoveMag(h, ErrorTol(f, h, d, p), mu, energy, i)
         IN \A j \in 1..2 : Near(g[j][i], f[j][i] ++ v[j], t[j] ++ Relative(m[j], 2 * Len2(f) + 8, p) ++ Relative(f[j][i] ++ v[j], 2, p) ++ 4)
=============================================================================
