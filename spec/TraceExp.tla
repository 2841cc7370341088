-------------------------------- MODULE TraceExp -------------------------------
(* Validates traces recorded from exp.hh and decibel.hh.                        *)
EXTENDS TraceBase, Expo
K(p) == IF p = 24 THEN 200 ELSE 1200             \* every value is a multiple of 2^-K
Scale ==
  /\ IsEvent("ldexp")
  /\ Ok(LET x == FltSeqAt(Ev.x, 1100)
            r == FltSeqAt(Ev.r, 1100)
        IN \A i \in 1..Len(x) : Scaled(x[i], Ev.n[i], r[i]))
  /\ Consume
Power ==
  /\ IsEvent("exp10")
  /\ Ok(LET x == Vs(Ev.x)
            r == FltSeqAt(Ev.r, K(Ev.p))
        IN \A i \in 1..Len(x) : TenOk(r[i], x[i], K(Ev.p), Ev.p, Ev.strict))
  /\ Consume
Ratio ==
  /\ IsEvent("idecibel")
  /\ Ok(LET x == Vs(Ev.x)
            r == FltSeqAt(Ev.r, K(Ev.p))
        IN \A i \in 1..Len(x) : TenthOk(r[i], x[i], K(Ev.p), Ev.p, Ev.strict))
  /\ Consume
Level ==
  /\ IsEvent("decibel")
  /\ Ok(LET x == FltSeqAt(Ev.x, K(Ev.p))
            r == Vs(Ev.r)
        IN \A i \in 1..Len(x) : DbOk(r[i], x[i], K(Ev.p), Ev.p, Ev.inner))
  /\ Consume
Init == l = 1
Next == Scale \/ Power \/ Ratio \/ Level
Spec == Init /\ [][Next]_l
=============================================================================
