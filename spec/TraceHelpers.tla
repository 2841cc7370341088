------------------------------ MODULE TraceHelpers -----------------------------
(* Validates traces recorded from utils.hh and const.hh.                        *)
EXTENDS TraceBase, Helpers
\* Integers as they are, everything else over 2^k, exactly
Num(s) == IF Ev.p = 0 THEN s ELSE FltSeqAt(s, 1080)
SignumEv ==
  /\ IsEvent("signum")
  /\ Ok(LET x == Num(Ev.x) IN \A i \in 1..Len(x) : Ev.r[i] = Signum(x[i]))
  /\ Consume
ClampEv ==
  /\ IsEvent("clamp")
  /\ Ok(LET x == Num(Ev.x) a == Num(Ev.a) b == Num(Ev.b) r == Num(Ev.r)
        IN \A i \in 1..Len(x) : BEq(r[i], Clamp(x[i], a[i], b[i])))
  /\ Consume
DeltaEv ==
  /\ IsEvent("delta")
  /\ Ok(LET x == Num(Ev.x) r == Vs(Ev.r) IN \A i \in 1..Len(x) : BEq(r[i], R(Delta(x[i]))))
  /\ Consume
LerpEv ==
  /\ IsEvent("lerp")
  /\ Ok(LET x == Vs(Ev.x) a == FltSeqAt(Ev.a, 200) b == FltSeqAt(Ev.b, 200) r == FltSeqAt(Ev.r, 200)
        IN \A i \in 1..Len(x) : LerpOk(r[i], a[i], b[i], x[i], Ev.p))
  /\ Consume
NormalEv ==
  /\ IsEvent("normal")
  /\ Ok(LET x == Vs(Ev.x) a == Vs(Ev.a) b == Vs(Ev.b) r == Vs(Ev.r)
        IN \A i \in 1..Len(x) : DensityOk(r[i], x[i], a[i], b[i], Ev.p))
  /\ Consume
SincEv ==
  /\ IsEvent("sinc")
  /\ Ok(LET x == Vs(Ev.x) r == Vs(Ev.r) IN \A i \in 1..Len(x) :
          /\ SincOk(r[i], x[i], Ev.p)
          /\ BEq(x[i], 0) => BEq(r[i], One))
  /\ Consume
ConstEv ==
  /\ IsEvent("const")
  /\ Ok(LET r == Vs(Ev.r) c == Constants IN
          /\ Len(r) = Len(c)
          /\ \A i \in 1..Len(c) : Rounded(r[i], c[i], Ev.p))
  /\ Consume
Init == l = 1
Next == SignumEv \/ ClampEv \/ DeltaEv \/ LerpEv \/ NormalEv \/ SincEv \/ ConstEv
Spec == Init /\ [][Next]_l
=============================================================================
