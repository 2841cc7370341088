------------------------------ MODULE TraceResample ----------------------------
(* Validates traces recorded from resampler.hh.  The parts of complex samples   *)
(* are recorded as separate objects.                                            *)
EXTENDS TraceBase, Resample
VARIABLE objs         \* object -> [p, rate, K: its response, x: the last T samples, d: offset, e: its error]
New ==
  /\ IsEvent("new")
  /\ \E K \in {Kernel(Ev.T, Ev.O, V(Ev.rate), V(Ev.cutoff), V(Ev.a), Ev.p)} :
     objs' = Put(objs, Ev.o, [p |-> Ev.p, rate |-> V(Ev.rate), K |-> K, x |-> [i \in 1..Ev.T |-> 0], d |-> 0, e |-> 0])
  /\ Consume
Same == IsEvent("same") /\ objs' = Put(objs, Ev.to, objs[Ev.o]) /\ Consume
\* All cells of the output are recorded; those which are not results had Ev.was
Block ==
  /\ IsEvent("block")
  /\ Ok(LET o == objs[Ev.o]
            ratio == Ratio(o.rate, V(Ev.diff))
            x == Vs(Ev.x)
            r == Vs(Ev.r)
            Result(i) ==                                              \* as in the output
              LET x0 == Place(ratio, i)
                  e == Relative(x0, 4, o.p)
                  got == r[(i + Delay(o.K.T)) * Ev.stride + 1]
              IN \E s \in Possible(x0, e) :
                   IF s < 0 \/ s + o.K.T > Ev.samples THEN Ev.r[(i + Delay(o.K.T)) * Ev.stride + 1] = Ev.was
                   ELSE LET k == R(s) -- x0 IN
                        Near(got, Weighted(o.K, k, x, s + 1), WeightedErr(o.K, k, x, s + 1, e, o.p))
        IN /\ Len(x) = Ev.samples
           /\ \A i \in 0..(Ev.samples - o.K.T - 1) : Result(i)
           /\ \A j \in 1..Len(r) :
                LET q == (j - 1) \div Ev.stride - Delay(o.K.T) IN
                (j - 1) % Ev.stride # 0 \/ q < 0 \/ q > Ev.samples - o.K.T - 1 => Ev.r[j] = Ev.was)
  /\ UNCHANGED objs
  /\ Consume
\* One call after the other: x[k] with the difference Ev.diff[k] gave Ev.n[k] results, the next ones of r
Bit(p) == Relative(One, 2, p)
RECURSIVE Results(_, _, _, _, _, _, _, _)
Results(o, x, d, e, delta, r, i, n) ==                                  \* n results are left for this call
  LET d1 == d ++ delta
      e1 == e ++ Bit(o.p)
  IN IF ~Near(r[i], Weighted(o.K, d, x, 1), WeightedErr(o.K, d, x, 1, e, o.p)) THEN [ok |-> FALSE, d |-> 0, e |-> 0]
     ELSE IF n = 1 THEN [ok |-> NotUp(d1, e1), d |-> d1, e |-> e1]
     ELSE IF ~HalfUp(d1, e1) THEN [ok |-> FALSE, d |-> 0, e |-> 0]
     ELSE Results(o, x, d1 -- One, e1 ++ Bit(o.p), delta, r, i + 1, n - 1)
Failed(o) == [ok |-> FALSE, o |-> o]
RECURSIVE Calls(_, _, _, _, _, _)
Calls(o, x, diff, n, r, s) ==                                           \* s = << call, result >>
  IF s[1] > Len(x) THEN [ok |-> s[2] = Len(r) + 1, o |-> o]
  ELSE LET h == BSeq(Append(SubSeq(o.x, 2, Len(o.x)), x[s[1]])) IN
       IF n[s[1]] = 0 THEN
         IF HalfDown(o.d, o.e)
         THEN Calls([o EXCEPT !.x = h, !.d = @ ++ One, !.e = @ ++ Bit(o.p)], x, diff, n, r, << s[1] + 1, s[2] >>)
         ELSE Failed(o)
       ELSE IF ~NotDown(o.d, o.e) \/ s[2] + n[s[1]] - 1 > Len(r) THEN Failed(o)
       ELSE LET q == Results(o, h, o.d, o.e, Div(diff[s[1]], o.rate), r, s[2], n[s[1]]) IN
            IF ~q.ok THEN Failed(o)
            ELSE Calls([o EXCEPT !.x = h, !.d = q.d, !.e = q.e], x, diff, n, r, << s[1] + 1, s[2] + n[s[1]] >>)
In ==
  /\ IsEvent("in")
  /\ Ok(Len(Ev.x) = Len(Ev.n) /\ Len(Ev.x) = Len(Ev.diff))
  /\ \E q \in {Calls(objs[Ev.o], Vs(Ev.x), Vs(Ev.diff), Ev.n, Vs(Ev.r), << 1, 1 >>)} :
     q.ok /\ objs' = [objs EXCEPT ![Ev.o] = q.o]
  /\ Consume
\* Calls whose results were not looked at, only how many there were
RECURSIVE Moves(_, _, _, _, _)
Moves(p, d, e, delta, n) ==                                              \* n results are left for this call
  LET d1 == d ++ delta
      e1 == e ++ Bit(p)
  IN IF n = 1 THEN [ok |-> NotUp(d1, e1), d |-> d1, e |-> e1]
     ELSE IF ~HalfUp(d1, e1) THEN [ok |-> FALSE, d |-> 0, e |-> 0]
     ELSE Moves(p, d1 -- One, e1 ++ Bit(p), delta, n - 1)
RECURSIVE Unheard(_, _, _, _)
Unheard(o, diff, n, k) ==
  IF k > Len(n) THEN [ok |-> TRUE, o |-> o]
  ELSE IF n[k] = 0 THEN
         IF HalfDown(o.d, o.e) THEN Unheard([o EXCEPT !.d = @ ++ One, !.e = @ ++ Bit(o.p)], diff, n, k + 1) ELSE Failed(o)
  ELSE IF ~NotDown(o.d, o.e) THEN Failed(o)
  ELSE LET q == Moves(o.p, o.d, o.e, Div(diff[k], o.rate), n[k]) IN
       IF ~q.ok THEN Failed(o) ELSE Unheard([o EXCEPT !.d = q.d, !.e = q.e], diff, n, k + 1)
Skip ==
  /\ IsEvent("skip")
  /\ Ok(Len(Ev.x) = Len(Ev.n) /\ Len(Ev.x) = Len(Ev.diff))
  /\ \E q \in {Unheard(objs[Ev.o], Vs(Ev.diff), Ev.n, 1)}, x \in {Vs(Ev.x)} :
     q.ok /\ objs' = [objs EXCEPT ![Ev.o] = [q.o EXCEPT !.x = BSeq(SubSeq(@ \o x, Len(x) + 1, Len(x) + Len(@)))]]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Same \/ Block \/ In \/ Skip
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
