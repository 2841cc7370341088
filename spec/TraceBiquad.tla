------------------------------- MODULE TraceBiquad -----------------------------
(* Validates traces recorded from biquad.hh.                                    *)
EXTENDS TraceBase, Biquads
VARIABLE objs         \* object -> [p, m: 0 for a single one or sections, d: designs, h: of each, last two inputs and outputs]
\* The two parts of complex samples are recorded as objects of their own
Set(o) == \E n \in {o} : objs' = [objs EXCEPT ![Ev.o] = n]
Silence == << 0, 0, 0, 0 >>
Sections(m) == IF m = 0 THEN 1 ELSE m
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, m |-> Ev.m, d |-> [i \in 1..Sections(Ev.m) |-> Undesigned],
                              h |-> [i \in 1..Sections(Ev.m) |-> Silence], top |-> 0])
  /\ Consume
ThisQ == IF Ev.db THEN Decibels(V(Ev.q)) ELSE Quality(V(Ev.q))
DefaultQ == Quality(Sqrt(HalfR))
Designed ==
  /\ IsEvent("design")
  /\ LET o == objs[Ev.o] IN
     Set([o EXCEPT !.d = IF o.m = 0 THEN << Design(Ev.kind, Ev.n, Ev.N, IF Has("q") THEN ThisQ ELSE DefaultQ, o.p) >>
                         ELSE [i \in 1..o.m |-> Design(Ev.kind, Ev.n, Ev.N, Quality(SectionQ(i - 1, o.m)), o.p)]])
  /\ Consume
\* A single one: everything the output depends on has been recorded
Abs5(h) == << BAbs(h[1]), BAbs(h[2]), BAbs(h[3]), BAbs(h[4]), BAbs(h[5]) >>
AbsC(d) == [c |-> Abs5(d.c), e |-> d.e]
RECURSIVE Run(_, _, _, _)
Run(o, x, r, k) ==
  IF k > Len(x) THEN [ok |-> TRUE, o |-> o]
  ELSE LET h == << x[k] >> \o o.h[1]
       IN IF Near(r[k], Output(o.d[1], h), OutputErr(AbsC(o.d[1]), Abs5(h), o.p))
          THEN Run([o EXCEPT !.h[1] = << x[k], h[2], r[k], h[4] >>], x, r, k + 1)
          ELSE [ok |-> FALSE]
\* A cascade: exactly, and the rounding errors inside are bounded relative to the largest input
\* so far
RECURSIVE Through(_, _, _)
Through(o, i, x) ==
  IF i > o.m THEN o
  ELSE LET h == << x >> \o o.h[i]
           y == Output(o.d[i], h)
       IN Through([o EXCEPT !.h[i] = << x, h[2], y, h[4] >>], i + 1, y)
RECURSIVE RunAll(_, _, _, _)
RunAll(o, x, r, k) ==
  IF k > Len(x) THEN [ok |-> TRUE, o |-> o]
  ELSE LET n == Through([o EXCEPT !.top = BMax(@, BAbs(x[k]))], 1, x[k])
       IN IF Near(r[k], n.h[o.m][3], Relative(n.top, 4096, o.p)) THEN RunAll(n, x, r, k + 1)
          ELSE [ok |-> FALSE]
In ==
  /\ IsEvent("in")
  /\ \E r \in {IF objs[Ev.o].m = 0 THEN Run(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1) ELSE RunAll(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1)} :
       r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Designed \/ In
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
