------------------------------ MODULE HelpersModel -----------------------------
(* The helpers on small grids, against what characterizes them.                 *)
EXTENDS Helpers, TLC
CONSTANT Top
VARIABLES a, b, x
vars == <<a, b, x>>
Init == a \in -Top..Top /\ b \in -Top..Top /\ x = 0 - Top
Next == x < Top /\ x' = x + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
SignumImpl == (IF x > 0 THEN 1 ELSE 0) - (IF x < 0 THEN 1 ELSE 0)
Sign == Signum(x) = SignumImpl /\ Signum(0 - x) = 0 - Signum(x) /\ x = Signum(x) * BAbs(x)
\* limited: one of the three, between the ends, and the value itself where it is between them
Limited == (a <= b) => LET c == Clamp(x, a, b) IN
  /\ a <= c /\ c <= b
  /\ (a <= x /\ x <= b) => c = x
  /\ c \in {a, b, x} /\ BAbs(c - x) <= BAbs(a - x) /\ BAbs(c - x) <= BAbs(b - x)
\* linear in x with the ends at 0 and 1; at x/4
Linear == LET q == Frac(x, 4) IN
  /\ BEq(Lerp(a, b, q), R(a) ++ (q ** (b - a)))
  /\ LerpOk(a, a, b, 0, 24) /\ LerpOk(b, a, b, One, 24)
  /\ LerpOk(a, a, a, q, 24)
  /\ (a /= b) => ~LerpOk(Shl(a, 30), Shl(a, 30), Shl(b, 30), HalfR, 24)
\* symmetric, decreasing from the center, scaled by the deviation; squares the same twice as far
\* are to the fourth power
Normal ==
  (b > 0 /\ a = 0) => LET d(k) == Density(Frac(k, 2), 0, R(b)) IN
    /\ Near(d(x), d(0 - x), Shl(1, 20))
    /\ (x >= 0 /\ x <= 2 * Top) => d(x + 1) \prec d(x)
    /\ Near(Mul(R(b), d(x)), Density(Frac(x, 2 * b), 0, One), Shl(1, 20))
    /\ Near(Sqr(Sqr(Mul(d(x), Sqrt(TwoPi)))), Mul(Mul(d(2 * x), Sqrt(TwoPi)), IF b = 1 THEN One ELSE Frac(1, b * b * b)), Shl(1, 40))
\* zero at the integers, even
Cardinal ==
  (a = 0 /\ b = 0) =>
    /\ (x /= 0) => BAbs(Sinc(R(x))) \preceq Shl(1, 8)
    /\ Near(Sinc(Frac(x, 7)), Sinc(Frac(0 - x, 7)), Shl(1, 8))
    /\ BEq(Sinc(0), One)
=============================================================================
