------------------------------- MODULE CircleModel -----------------------------
(* The reduction to an octant, and the polynomials there.  One state for each   *)
(* pair of n and N.                                                             *)
EXTENDS Circle, TLC
CONSTANT Top                                     \* largest N
VARIABLES n, N
Init == N \in 1..Top /\ n = 0 - N
Next == n < N /\ n' = n + 1 /\ UNCHANGED N
Spec == Init /\ [][Next]_<<n, N>>

\* A branch: sign, kernel, and the reduced fraction a/b of a turn
B(sign, kernel, a, b) == [sign |-> sign, kernel |-> kernel, a |-> a, b |-> b]
CosBranch ==
  CASE 8*n < -7*N -> B(1, "cos", n + N, N)
    [] -7*N <= 8*n /\ 8*n < -5*N -> B(-1, "sin", 4*n + 3*N, 4*N)
    [] -5*N <= 8*n /\ 8*n < -3*N -> B(-1, "cos", 2*n + N, 2*N)
    [] -3*N <= 8*n /\ 8*n < -1*N -> B(1, "sin", 4*n + N, 4*N)
    [] -1*N <= 8*n /\ 8*n < 1*N -> B(1, "cos", n, N)
    [] 1*N <= 8*n /\ 8*n < 3*N -> B(-1, "sin", 4*n - N, 4*N)
    [] 3*N <= 8*n /\ 8*n < 5*N -> B(-1, "cos", 2*n - N, 2*N)
    [] 5*N <= 8*n /\ 8*n < 7*N -> B(1, "sin", 4*n - 3*N, 4*N)
    [] 7*N <= 8*n -> B(1, "cos", n - N, N)
SinBranch ==
  CASE 8*n < -7*N -> B(1, "sin", n + N, N)
    [] -7*N <= 8*n /\ 8*n < -5*N -> B(1, "cos", 4*n + 3*N, 4*N)
    [] -5*N <= 8*n /\ 8*n < -3*N -> B(-1, "sin", 2*n + N, 2*N)
    [] -3*N <= 8*n /\ 8*n < -1*N -> B(-1, "cos", 4*n + N, 4*N)
    [] -1*N <= 8*n /\ 8*n < 1*N -> B(1, "sin", n, N)
    [] 1*N <= 8*n /\ 8*n < 3*N -> B(1, "cos", 4*n - N, 4*N)
    [] 3*N <= 8*n /\ 8*n < 5*N -> B(-1, "sin", 2*n - N, 2*N)
    [] 5*N <= 8*n /\ 8*n < 7*N -> B(-1, "cos", 4*n - 3*N, 4*N)
    [] 7*N <= 8*n -> B(1, "sin", n - N, N)
\* As the angle of a cosine, in units of 1/(4N) turn: a sine is a quarter turn behind,
\* a sign half a turn
AsCos(b) == (b.a * ((4*N) \div b.b) - (IF b.kernel = "sin" THEN N ELSE 0) + (IF b.sign = -1 THEN 2*N ELSE 0)) % (4*N)
\* cosines of two angles are the same
SameCos(s, t) == s % (4*N) = t % (4*N) \/ s % (4*N) = (0 - t) % (4*N)
Identity ==
  /\ SameCos(AsCos(CosBranch), 4*n)
  /\ SameCos(AsCos(SinBranch), 4*n - N)
\* and the kernels are used within an eighth of a turn only
Reduced == \A b \in {CosBranch, SinBranch} : 8 * b.a <= b.b /\ 8 * b.a >= 0 - b.b

\* The polynomials, with the coefficients as printed, in decimal fixed point of 32 digits
Digits32 == BInt("100000000000000000000000000000000")
D(str) == Shl(BInt(str), F) // Digits32
CosineKernel(xx) ==
  LET a14 == D("-1135853652138768173000")
      a12 == D("208757008419747316778000")
      a10 == D("-27557314179296738811200000")
      a8  == D("2480158728885170453480000000")
      a6  == D("-138888888888730564116000000000")
      a4  == D("4166666666666659292180000000000")
      a2  == D("-50000000000000000000000000000000")
  IN One ++ Mul(xx, Mul(xx, Mul(xx, Mul(xx, Mul(xx, Mul(xx, Mul(xx, a14) ++ a12) ++ a10) ++ a8) ++ a6) ++ a4) ++ a2)
SineKernel(x, xx) ==
  LET a13 == D("15896230157654656806000")
      a11 == D("-2505074776285780728660000")
      a9  == D("275573136213857245213000000")
      a7  == D("-19841269829589538599600000000")
      a5  == D("833333333332211858878000000000")
      a3  == D("-16666666666666630729500000000000")
  IN Mul(x, Mul(xx, Mul(xx, Mul(xx, Mul(xx, Mul(xx, Mul(xx, a13) ++ a11) ++ a9) ++ a7) ++ a5) ++ a3) ++ One)
\* which are as good as double precision
Accurate ==
  (8 * n <= N /\ 8 * n >= 0 - N) =>
    LET x == Quot(TwoPi ** n, N) IN
    /\ Near(CosineKernel(Sqr(x)), CosTurn(n, N), Shl(1, F - 55))
    /\ Near(SineKernel(x, Sqr(x)), SinTurn(n, N), Shl(1, F - 55))
=============================================================================
