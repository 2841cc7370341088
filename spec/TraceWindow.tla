------------------------------- MODULE TraceWindow -----------------------------
(* Validates traces recorded from window.hh, filter.hh and coeffs.hh.           *)
EXTENDS TraceBase, Windows
\* Values of one window of length N at several n; a: the parameters
Exact(w, a, n, N) ==
  CASE w = "rect" -> Rect(n, N)
    [] w = "hann" -> Hann(n, N)
    [] w = "hamming" -> Hamming(n, N)
    [] w = "lanczos" -> Lanczos(n, N)
    [] w = "blackman3" -> Blackman3(a[1], a[2], a[3], n, N)
    [] w = "blackman1" -> Blackman1(a[1], n, N)
    [] w = "blackman" -> BlackmanExact(n, N)
    [] w = "gauss" -> Gauss(a[1], n, N)
    [] w = "kaiser" -> Kaiser(a[1], n, N)
    [] w = "low" -> Low(a[1], n, N)
    [] w = "high" -> High(a[1], n, N)
    [] w = "band" -> Band(a[1], a[2], n, N)
    [] w = "low2" -> Low(Frac(Ev.num, Ev.den), n, N)
    [] w = "high2" -> High(Frac(Ev.num, Ev.den), n, N)
    [] w = "hilbert" -> Hilbert(n, N)
\* The error of a Gaussian grows with its exponent; that of the Kaiser window with the slope of
\* the Bessel function in the square of its argument.  The prototypes are relative to the cutoff.
Tolerance(w, a, n, N, e) ==
  CASE w = "rect" -> 0
    [] w \in {"hann", "hamming", "blackman"} -> Roundoffs(5, Ev.p)
    [] w = "lanczos" -> Roundoffs(7, Ev.p)
    [] w = "blackman3" -> Relative(BAbs(a[1]) ++ BAbs(a[2]) ++ BAbs(a[3]), 6, Ev.p)
    [] w = "blackman1" -> Relative(One ++ BAbs(a[1]), 6, Ev.p)
    [] w = "gauss" -> Relative(e, 6 ** (1 ++ Shr(2 ** GaussArg(a[1], n, N), F) ++ 1), Ev.p) ++ Shl(1, F - 120)
    [] w = "kaiser" -> Relative(e, 8 ++ (12 ** (1 ++ Shr(Sqr(a[1]), F))), Ev.p)
    [] w = "low" -> Relative(a[1], 12, Ev.p)
    [] w = "high" -> Relative(a[1] ++ One, 12, Ev.p)
    [] w = "band" -> Relative(a[1] ++ a[2], 12, Ev.p)
    [] w = "low2" -> Relative(Frac(Ev.num, Ev.den), 16, Ev.p)
    [] w = "high2" -> Relative(Frac(Ev.num, Ev.den) ++ One, 10, Ev.p)
    [] w = "hilbert" -> Relative(e, 4, Ev.p)
Values ==
  /\ IsEvent("window")
  /\ Ok(LET a == Vs(Ev.a)
            r == Vs(Ev.r)
        IN \A i \in 1..Len(Ev.n) :
             LET e == Exact(Ev.w, a, Ev.n[i], Ev.N) IN
             Near(r[i], e, Tolerance(Ev.w, a, Ev.n[i], Ev.N, e)))
  /\ Consume
\* Coefficients: u and v are the values of prototype and window, r those of the array from
\* position -3 to three behind the end, by index, q the whole array.
\* times: how often normalized since, the last time with divisor d
Products(u, v) == [i \in 1..Len(u) |-> Shr(u[i] ** v[i], F)]
Fits(r, w, d, norm, p) ==
  LET s == BAbs(BSum(w))
      m == BAbsSum(w)
      n == Len(w)
  IN IF norm
     THEN \* r s d = w, within the rounding of the sum
          \A i \in 1..n : Near(Mul(r[i], Mul(s, d)), w[i],
            Relative(w[i], 6, p) ++ Mul(BAbs(r[i]), Mul(BAbs(d), Relative(m, n + 1, p))) ++ Shl(1, F - 120))
     ELSE \A i \in 1..n : Near(r[i], w[i], IF Ev.product THEN Relative(w[i], 2, p) ELSE 0)
Array ==
  /\ IsEvent("coeffs")
  /\ Ok(LET u == Vs(Ev.u)
            v == Vs(Ev.v)
            r == Vs(Ev.r)
            q == Vs(Ev.q)
            n == Len(u)
            d == V(Ev.d)
            w == IF Ev.product THEN Products(u, v) ELSE u
        IN /\ Len(r) = n + 6 /\ Len(q) = n
           /\ \A i \in {1, 2, 3, n + 4, n + 5, n + 6} : BEq(r[i], 0)
           /\ \A i \in 1..n : BEq(r[i + 3], q[i])
           /\ Fits(q, w, d, Ev.norm, Ev.p))
  /\ Consume
Init == l = 1
Next == Values \/ Array
Spec == Init /\ [][Next]_l
=============================================================================
