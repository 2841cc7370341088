------------------------------- MODULE TraceDeque ------------------------------
(* Validates traces recorded from deque.hh against Deque.                       *)
EXTENDS TraceBase
VARIABLE objs         \* object id -> [cap, q]

D == INSTANCE Deque WITH Cap <- 0, Values <- {}, q <- <<>>

Ops == {"push_back", "push_front", "pop_back", "pop_front", "clear"}

\* After every call the harness records all observers
Observed(q, cap) ==
  /\ Ev.size = D!Size(q)
  /\ Ev.empty = D!Empty(q)
  /\ Ev.full = D!Full(q, cap)
  /\ Ev.max = cap
  /\ D!Legal("front", q, cap) => Ev.front = D!Front(q) /\ Ev.back = D!Back(q)

New ==
  /\ IsEvent("new")
  /\ Observed(<<>>, Ev.cap)
  /\ objs' = Put(objs, Ev.o, [cap |-> Ev.cap, q |-> <<>>])
  /\ Consume
Call ==
  /\ IsEvent("call")
  /\ LET o == objs[Ev.o] IN
     /\ Ev.op \in Ops
     /\ D!Legal(Ev.op, o.q, o.cap)
     /\ LET r == D!After(Ev.op, Ev.v, o.q) IN
        /\ Observed(r, o.cap)
        /\ objs' = [objs EXCEPT ![Ev.o].q = r]
  /\ Consume
\* n calls in a row: values v, v+1, ... pushed, or n values popped; the observers are
\* recorded after the last one
Burst ==
  /\ IsEvent("burst")
  /\ LET o == objs[Ev.o]
         n == Ev.n
         r == CASE Ev.op = "push_back" -> o.q \o [i \in 1..n |-> Ev.v + i - 1]
                [] Ev.op = "push_front" -> [i \in 1..n |-> Ev.v + n - i] \o o.q
                [] Ev.op = "pop_back" -> SubSeq(o.q, 1, Len(o.q) - n)
                [] Ev.op = "pop_front" -> SubSeq(o.q, n + 1, Len(o.q))
     IN
     /\ IF Ev.op \in {"push_back", "push_front"} THEN Len(o.q) + n <= o.cap ELSE n <= Len(o.q)
     /\ Observed(r, o.cap)
     /\ objs' = [objs EXCEPT ![Ev.o].q = r]
  /\ Consume
\* The harness tried a call in a child process
Try ==
  /\ IsEvent("try")
  /\ LET o == objs[Ev.o] IN
     Ev.outcome = IF D!Legal(Ev.op, o.q, o.cap) THEN "returned" ELSE "abort"
  /\ UNCHANGED objs
  /\ Consume

Init == l = 1 /\ objs = <<>>
Next == New \/ Call \/ Burst \/ Try
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
