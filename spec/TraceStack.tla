------------------------------- MODULE TraceStack ------------------------------
(* Validates traces recorded from stack.hh against Stack.                       *)
EXTENDS TraceBase
VARIABLE objs

D == INSTANCE Stack WITH Cap <- 0, Values <- {}, s <- <<>>

Observed(q, cap) ==
  /\ Ev.size = D!Size(q)
  /\ Ev.empty = D!Empty(q)
  /\ Ev.full = D!Full(q, cap)
  /\ Ev.max = cap
  /\ D!Legal("top", q, cap) => Ev.top = D!Top(q) /\ Ev.first = D!First(q)

New ==
  /\ IsEvent("new")
  /\ Observed(<<>>, Ev.cap)
  /\ objs' = Put(objs, Ev.o, [cap |-> Ev.cap, q |-> <<>>])
  /\ Consume
Call ==
  /\ IsEvent("call")
  /\ LET o == objs[Ev.o] IN
     /\ Ev.op \in {"push", "pop", "clear"}
     /\ D!Legal(Ev.op, o.q, o.cap)
     /\ LET r == D!After(Ev.op, Ev.v, o.q) IN
        /\ Observed(r, o.cap)
        /\ objs' = [objs EXCEPT ![Ev.o].q = r]
  /\ Consume
Burst ==
  /\ IsEvent("burst")
  /\ LET o == objs[Ev.o]
         n == Ev.n
         r == IF Ev.op = "push" THEN o.q \o [i \in 1..n |-> Ev.v + i - 1]
              ELSE SubSeq(o.q, 1, Len(o.q) - n)
     IN
     /\ IF Ev.op = "push" THEN Len(o.q) + n <= o.cap ELSE n <= Len(o.q)
     /\ Observed(r, o.cap)
     /\ objs' = [objs EXCEPT ![Ev.o].q = r]
  /\ Consume
Try ==
  /\ IsEvent("try")
  /\ LET o == objs[Ev.o] IN
     Ev.outcome = IF D!Legal(Ev.op, o.q, o.cap) THEN "returned" ELSE "abort"
  /\ UNCHANGED objs
  /\ Consume

Init == l = 1 /\ objs = <<>>
Next == New \/ Call \/ Burst \/ Try
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
