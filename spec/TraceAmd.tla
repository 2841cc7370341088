-------------------------------- MODULE TraceAmd -------------------------------
(* Validates traces recorded from amd.hh.                                       *)
EXTENDS TraceBase, Demod
VARIABLE objs         \* object -> [p, v, e: envelope and its error, att, dec, lo, elo, hi, i]
Thousandth == Frac(1, 1000)
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, v |-> 0, e |-> 0, att |-> 0, dec |-> 0,
                              lo |-> Thousandth, elo |-> Relative(Thousandth, 1, Ev.p), hi |-> One, i |-> One])
  /\ Consume
\* The limits need not be given
Agc ==
  /\ IsEvent("agc")
  /\ objs' = [objs EXCEPT ![Ev.o] = [@ EXCEPT !.att = V(Ev.att), !.dec = V(Ev.dec),
                !.lo = IF Has("lo") THEN V(Ev.lo) ELSE Thousandth,
                !.elo = IF Has("lo") THEN 0 ELSE Relative(Thousandth, 1, objs[Ev.o].p),
                !.hi = IF Has("hi") THEN V(Ev.hi) ELSE One]]
  /\ Consume
Index == IsEvent("index") /\ objs' = [objs EXCEPT ![Ev.o].i = V(Ev.i)] /\ Consume
RECURSIVE Run(_, _, _, _)
Run(o, x, r, k) ==
  IF k > Len(r) THEN [ok |-> TRUE, o |-> o]
  ELSE LET a == Hypot(x[2*k], x[2*k-1])
           n == Envelope(o, a)
       IN IF Sound(n) /\ Near(r[k], Demodulated(a, n, o.i), DemodulatedErr(a, n, o.i, o.p))
          THEN Run([o EXCEPT !.v = n.v, !.e = n.e], x, r, k + 1) ELSE [ok |-> FALSE]
In ==
  /\ IsEvent("in")
  /\ \E r \in {Run(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1)} : r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Agc \/ Index \/ In
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
