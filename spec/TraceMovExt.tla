------------------------------ MODULE TraceMovExt ------------------------------
(* Validates traces recorded from movext.hh.  Samples are recorded as ranks     *)
(* which preserve their order, so that any type fits.                           *)
EXTENDS TraceBase
VARIABLE objs         \* object -> [kind, n, s: recent samples, calls]
M == INSTANCE MovExt

Ext(kind, s) == IF kind = "min" THEN BMinOf(s) ELSE BMaxOf(s)

New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [kind |-> Ev.kind, n |-> Ev.n, s |-> <<>>, calls |-> 0])
  /\ Consume
Block ==
  /\ IsEvent("block")
  /\ LET o == objs[Ev.o] IN
     /\ Len(Ev.out) = Len(Ev.in)
     /\ Ok(LET a == o.s \o Ev.in
               b == Len(o.s) IN
           \A i \in 1..Len(Ev.in) :
             Ev.out[i] = Ext(o.kind, SubSeq(a, IF b + i > o.n THEN b + i - o.n + 1 ELSE 1, b + i)))
     \* comparisons made since construction
     /\ Has("comps") => Ev.comps < 4 * (o.calls + Len(Ev.in))
     /\ objs' = [objs EXCEPT ![Ev.o].s = M!Recent(@ \o Ev.in, o.n),
                             ![Ev.o].calls = @ + Len(Ev.in)]
  /\ Consume
\* Only the last result was recorded
Bulk ==
  /\ IsEvent("bulk")
  /\ LET o == objs[Ev.o] IN
     /\ Ok(Ev.last = Ext(o.kind, M!Recent(o.s \o Ev.in, o.n)))
     /\ objs' = [objs EXCEPT ![Ev.o].s = M!Recent(@ \o Ev.in, o.n),
                             ![Ev.o].calls = @ + Len(Ev.in)]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block \/ Bulk
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
