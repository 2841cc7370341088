-------------------------------- MODULE TraceFmd -------------------------------
(* Validates traces recorded from fmd.hh.                                       *)
EXTENDS TraceBase, Demod
VARIABLE objs         \* object -> [p, kind, scale, a, b: last two samples]
RealAxis == << One, 0 >>
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, kind |-> Ev.kind, scale |-> 0, a |-> RealAxis, b |-> RealAxis])
  /\ Consume
Bandwidth ==
  /\ IsEvent("bandwidth")
  /\ objs' = [objs EXCEPT ![Ev.o].scale = Scale(V(Ev.bw))]
  /\ Consume
Fine(o, z, r) ==
  CASE o.kind \in 1..3 ->
         /\ FineStep(r, o.scale, Step(o.b, z), Roundoffs(32, o.p))
         /\ InRange(r, o.scale, o.p)
    [] o.kind = 4 -> Near(r, Fourth(o.scale, o.b, z), FourthErr(o.scale, o.b, z, o.p))
    [] o.kind = 5 -> Near(r, Fifth(o.scale, o.a, o.b, z), FifthErr(o.scale, o.a, o.b, z, o.p))
RECURSIVE Run(_, _, _, _)
Run(o, x, r, k) ==
  IF k > Len(r) THEN [ok |-> TRUE, o |-> o]
  ELSE LET z == << x[2*k-1], x[2*k] >> IN
       IF Fine(o, z, r[k]) THEN Run([o EXCEPT !.a = o.b, !.b = z], x, r, k + 1) ELSE [ok |-> FALSE]
In ==
  /\ IsEvent("in")
  /\ \E r \in {Run(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1)} : r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
\* Others in between, of which the last two matter
Skip ==
  /\ IsEvent("skip")
  /\ \E x \in {Vs(Ev.x)} : objs' = [objs EXCEPT ![Ev.o].a = << x[1], x[2] >>, ![Ev.o].b = << x[3], x[4] >>]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Bandwidth \/ In \/ Skip
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
