------------------------------- MODULE TraceDelay ------------------------------
(* Validates traces recorded from delay.hh: in each block of calls, call i      *)
(* returned the oldest sample of the window before it.                          *)
EXTENDS TraceBase
VARIABLE objs
D == INSTANCE Delay WITH Len0 <- 1, Values <- {}, Init0 <- 0, w <- <<0>>, out <- 0

New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, D!Initial(Ev.n, Ev.init))
  /\ Consume
Block ==
  /\ IsEvent("block")
  \* the oldest sample of D!Before(w, Ev.in, i) is the i-th of w \o Ev.in
  /\ Ok(Ev.out = SubSeq(objs[Ev.o] \o Ev.in, 1, Len(Ev.in)))
  /\ objs' = [objs EXCEPT ![Ev.o] = D!Slides(@, Ev.in)]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
