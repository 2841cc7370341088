------------------------------- MODULE MovExtStacks ----------------------------
(* The implementation of movext.hh, with the order "less": a delay line and two *)
(* stacks.  Top is the value above all samples from which it starts; samples    *)
(* may equal it.                                                                *)
EXTENDS MovExt, TLC, Json
CONSTANTS N, Values, Top, Slack
VARIABLES window, dispenser, refill,
          recent,      \* the last N samples, those which exist
          out,
          debt,        \* comparisons made beyond four per call, not below -Slack
          hist
vars == <<window, dispenser, refill, recent, out, debt, hist>>
Init ==
  /\ window = [i \in 1..N |-> Top] /\ dispenser = <<Top>> /\ refill = <<>>
  /\ recent = <<>> /\ out = Top /\ debt = 0 /\ hist = <<>>
TopOf(s) == s[Len(s)]
PopOf(s) == SubSeq(s, 1, Len(s) - 1)
\* refill after dropping what the input beats, and the comparisons this takes
RECURSIVE Drop(_, _, _)
Drop(s, v, c) ==
  IF s = <<>> THEN <<s, c>>
  ELSE IF v < TopOf(s) THEN Drop(PopOf(s), v, c + 1) ELSE <<s, c + 1>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Max2(a, b) == IF a < b THEN b ELSE a
Call(v) ==
  /\ window' = Append(Tail(window), v)
  /\ LET d == IF Head(window) = TopOf(dispenser) THEN PopOf(dispenser) ELSE dispenser
         rc == Drop(refill, v, 0)
         r == Append(rc[1], v)
         c == rc[2] + IF d = <<>> THEN 0 ELSE 1
     IN
     /\ Assert(Len(r) <= N, "refill overflows")
     /\ IF d = <<>>
        THEN /\ dispenser' = Rev(r) /\ refill' = <<>>
             /\ out' = TopOf(Rev(r))
        ELSE /\ dispenser' = d /\ refill' = r
             /\ out' = IF TopOf(d) < r[1] THEN TopOf(d) ELSE r[1]
     /\ debt' = Max2(-Slack, debt + c - 4)
  /\ recent' = Recent(Append(recent, v), N)
  /\ hist' = Append(hist, <<"in", v>>)
Next == \E v \in Values : Call(v)
Spec == Init /\ [][Next]_vars
IsExtreme == recent # <<>> => out = Smallest(recent)
NeverEmpty == dispenser # <<>> /\ Len(dispenser) <= N
Amortized == debt <= 0
View == <<window, dispenser, refill, recent, out, debt>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
