-------------------------------- MODULE TraceEma -------------------------------
(* Validates traces recorded from ema.hh.                                       *)
EXTENDS TraceBase, Emas
VARIABLE objs         \* object -> [p, m: order, f: factor, v: values of the averages, e: their errors]
\* The two parts of complex samples are recorded as objects of their own
Set(o) == \E n \in {o} : objs' = [objs EXCEPT ![Ev.o] = n]
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, m |-> Ev.m, f |-> Given(V(Ev.alpha)),
                              v |-> <<V(Ev.start)>> \o [i \in 1..(Ev.m - 1) |-> 0], e |-> [i \in 1..Ev.m |-> 0]])
  /\ Consume
Samples == IsEvent("samples") /\ Set([objs[Ev.o] EXCEPT !.f = OneOver(Ev.s, objs[Ev.o].p)]) /\ Consume
Cutoff ==
  /\ IsEvent("cutoff")
  /\ Set([objs[Ev.o] EXCEPT !.f = CascadeFactor(Ev.n, Ev.N, objs[Ev.o].m, objs[Ev.o].p)])
  /\ Consume
\* One input through all averages; the last of them is known from the output
RECURSIVE Through(_, _, _, _)
Through(o, i, x, ex) ==
  IF i > o.m THEN o
  ELSE LET v == Moved(o.v[i], x, o.f)
           e == MovedErr(o.v[i], x, o.e[i], ex, o.f, o.p)
       IN Through([o EXCEPT !.v[i] = v, !.e[i] = e], i + 1, v, e)
RECURSIVE Run(_, _, _, _)
Run(o, x, r, k) ==
  IF k > Len(x) THEN [ok |-> TRUE, o |-> o]
  ELSE LET n == Through(o, 1, x[k], 0) IN
       IF Near(r[k], n.v[o.m], n.e[o.m])
       THEN Run([n EXCEPT !.v[o.m] = r[k], !.e[o.m] = 0], x, r, k + 1)
       ELSE [ok |-> FALSE]
In ==
  /\ IsEvent("in")
  /\ \E r \in {Run(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1)} : r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Samples \/ Cutoff \/ In
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
