------------------------------ MODULE TraceBlocker -----------------------------
(* Validates traces recorded from blockdc.hh and normalize.hh.                  *)
EXTENDS TraceBase, Blockers
VARIABLE objs         \* object -> [p, norm: a normalizer, s: samples or 0, x: last input, y: last blocked, m: mean power, ey, em: errors]
\* The two parts of complex samples are recorded as objects of their own
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, norm |-> Ev.norm, s |-> 0, x |-> 0, y |-> 0, m |-> HalfR, ey |-> 0, em |-> 0])
  /\ Consume
Samples == IsEvent("samples") /\ objs' = [objs EXCEPT ![Ev.o].s = Ev.s] /\ Consume
RECURSIVE Block(_, _, _, _)
Block(o, x, r, k) ==
  IF k > Len(x) THEN [ok |-> TRUE, o |-> o]
  ELSE IF Near(r[k], Blocked(o.s, o.x, o.y, x[k]), BlockedErr(o.s, o.x, o.y, x[k], 0, o.p))
       THEN Block([o EXCEPT !.x = x[k], !.y = r[k]], x, r, k + 1)
       ELSE [ok |-> FALSE]
\* While the mean power is too uncertain, only the state advances
RECURSIVE Normalize(_, _, _, _)
Normalize(o, x, r, k) ==
  IF k > Len(x) THEN [ok |-> TRUE, o |-> o]
  ELSE LET y == Blocked(o.s, o.x, o.y, x[k])
           ey == BlockedErr(o.s, o.x, o.y, x[k], o.ey, o.p)
           m == Averaged(o.s, o.m, y)
           em == AveragedErr(o.s, o.m, y, o.em, ey, o.p)
       IN IF Sound(m, em) => Near(r[k], Normal(y, m), NormalErr(y, m, ey, em, o.p))
          THEN Normalize([o EXCEPT !.x = x[k], !.y = y, !.ey = ey, !.m = m, !.em = em], x, r, k + 1)
          ELSE [ok |-> FALSE]
In ==
  /\ IsEvent("in")
  /\ \E r \in {IF objs[Ev.o].norm THEN Normalize(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1) ELSE Block(objs[Ev.o], Vs(Ev.x), Vs(Ev.r), 1)} :
       r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
\* n times the same input x, at the end of which the output is r: decayed by Leak each
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE LET h == Pow(a, n \div 2) IN IF n % 2 = 0 THEN Sqr(h) ELSE Mul(a, Sqr(h))
Constant ==
  /\ IsEvent("constant")
  /\ LET o == objs[Ev.o]
         x == V(Ev.x)
         y == Blocked(o.s, o.x, o.y, x)
         d == Mul(Pow(Leak(o.s), Ev.n - 1), y)
     IN /\ Ok(Near(V(Ev.r), d, Relative(d, 8 * (Ev.n + 1), o.p) ++ Mul(Pow(Leak(o.s), Ev.n - 1), BlockedErr(o.s, o.x, o.y, x, 0, o.p))
                               ++ FltAt("0x1p-120", F)))
        /\ objs' = [objs EXCEPT ![Ev.o].x = x, ![Ev.o].y = V(Ev.r)]
  /\ Consume
\* Inputs up to Ev.top, of which only the last is known.  The state of a blocker is its last input and
\* output; nothing exact is known of the one of a normalizer then, but it is forgotten.  What is
\* blocked does not exceed twice the inputs.
Skip ==
  /\ IsEvent("skip")
  /\ \E t \in {V(Ev.top)} :
       objs' = [objs EXCEPT ![Ev.o] = [@ EXCEPT !.x = V(Ev.x), !.y = IF objs[Ev.o].norm THEN 0 ELSE V(Ev.r), !.ey = 2 ** t, !.m = 2 ** Sqr(t), !.em = 2 ** Sqr(t)]]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Samples \/ In \/ Skip \/ Constant
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
