--------------------------------- MODULE Circle --------------------------------
(* Cosine and sine of a fraction n/N of a turn, -N <= n <= N, computed with p   *)
(* significant bits.                                                            *)
EXTENDS RealFn
Quarters(n, N) == (4 ** n) %% N                 \* zero at multiples of a quarter turn
\* c and s are acceptable values for cosine and sine
FineCos(c, n, N, p) ==
  /\ Near(c, CosTurn(n, N), Roundoffs(3, p))
  /\ BEq(Quarters(n, N), 0) => BEq(c, CosTurn(n, N))
FineSin(s, n, N, p) ==
  /\ Near(s, SinTurn(n, N), Roundoffs(3, p))
  /\ BEq(Quarters(n, N), 0) => BEq(s, SinTurn(n, N))
Bounded(c, p) == BAbs(c) \preceq One ++ Roundoffs(3, p)
FineRad(r, n, N, p) == LET e == Quot(TwoPi ** n, N) IN Near(r, e, Relative(e, 6, p))
=============================================================================
