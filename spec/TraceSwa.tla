-------------------------------- MODULE TraceSwa -------------------------------
(* Validates traces recorded from swa.hh: every result is the combination of    *)
(* the samples in the window, and few applications of the operation were made.  *)
EXTENDS TraceBase
VARIABLE objs         \* object -> [op, w: the samples so far, at most n of them, n]
W == INSTANCE Window

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* The samples of a window which is not full yet are those seen
Recent(w, vs, i, n) ==
  LET a == w \o vs
      e == Len(w) + i IN SubSeq(a, IF e > n THEN e - n + 1 ELSE 1, e)
Combined(op, s) ==
  CASE op = "sum" -> BSum(s)
    [] op = "max" -> BMaxOf(s)
    [] op = "min" -> BMinOf(s)

New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [op |-> Ev.op, n |-> Ev.n, w |-> <<>>])
  /\ Consume
\* ops: the largest number of applications of the operation in one of these calls
Few(n) == Ev.ops <= Log2(n) + 1
Block ==
  /\ IsEvent("block")
  /\ LET o == objs[Ev.o] IN
     /\ Few(o.n)
     /\ Len(Ev.out) = Len(Ev.in)
     /\ Ok(\A i \in 1..Len(Ev.in) : BEq(Ev.out[i], Combined(o.op, Recent(o.w, Ev.in, i, o.n))))
     /\ objs' = [objs EXCEPT ![Ev.o].w = Recent(@, Ev.in, Len(Ev.in), o.n)]
  /\ Consume
\* Only the last result was recorded
Bulk ==
  /\ IsEvent("bulk")
  /\ LET o == objs[Ev.o] IN
     /\ Few(o.n)
     /\ Ok(BEq(Ev.last, Combined(o.op, Recent(o.w, Ev.in, Len(Ev.in), o.n))))
     /\ objs' = [objs EXCEPT ![Ev.o].w = Recent(@, Ev.in, Len(Ev.in), o.n)]
  /\ Consume
\* The operation is the union of bags: the result lists the elements of the bag
Bag ==
  /\ IsEvent("bag")
  /\ LET o == objs[Ev.o] IN
     /\ Few(o.n)
     /\ Ok(BSort(Ev.out) = BSort(Recent(o.w, <<Ev.v>>, 1, o.n)))
     /\ objs' = [objs EXCEPT ![Ev.o].w = Recent(@, <<Ev.v>>, 1, o.n)]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block \/ Bulk \/ Bag
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
