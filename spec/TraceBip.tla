-------------------------------- MODULE TraceBip -------------------------------
(* Validates traces recorded from bip_buffer.hh against Window.                 *)
EXTENDS TraceBase
VARIABLE objs
W == INSTANCE Window
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, W!Initial(Ev.n, 0))
  /\ Ev.view = W!Initial(Ev.n, 0)
  /\ Consume
\* The samples of Ev.in were inserted in turn; the view returned by the last
\* insertion was recorded
Block ==
  /\ IsEvent("block")
  /\ LET r == W!Slides(objs[Ev.o], Ev.in) IN
     /\ Ev.view = r
     /\ objs' = [objs EXCEPT ![Ev.o] = r]
  /\ Consume
Peek ==
  /\ IsEvent("peek")
  /\ Ev.view = objs[Ev.o]
  /\ UNCHANGED objs
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block \/ Peek
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
