-------------------------------- MODULE TraceSma -------------------------------
(* Validates traces recorded from sma.hh.  Samples of integer types are         *)
(* recorded as numbers, of floating-point types as strings; the two parts of    *)
(* complex samples are recorded as two objects.                                 *)
EXTENDS TraceBase
VARIABLE objs  \* object -> [n, norm, p: precision or 0 for integers, rule, w: last samples, avg: last result, top: largest sum]
W == INSTANCE Window
K == 200              \* bits behind the point
Conv(p, s) == IF p = 0 THEN s ELSE FltSeqAt(s, K)
\* Division truncated towards zero
Trunc(a, n) == IF a \prec 0 THEN BNeg(BNeg(a) // n) ELSE a // n
\* The allowed error of the sum of the window win:
\*   rounding of every addition ("each"), of a few sums as large as the largest
\*   one seen ("top"), or of the result only as all the sums were exact ("exact")
\* and some roundings for the division
SumErr(o, win, top) ==
  CASE o.rule = "each" -> Shr((o.n + 4) ** BAbsSum(win), o.p)
    [] o.rule = "top" -> Shr(8 ** top, o.p)
    [] o.rule = "exact" -> Shr(4 ** BAbs(BSum(win)), o.p)
Fits(o, win, top, r) ==
  LET s == BSum(win) IN
  IF o.p = 0 THEN BEq(r, IF o.norm THEN Trunc(s, o.n) ELSE s)
  ELSE LET e == SumErr(o, win, top) IN
       IF o.norm THEN BAbs((o.n ** r) -- s) \preceq e ++ o.n ELSE BAbs(r -- s) \preceq e
\* Largest sum of a window or of one without its oldest sample
Top(t, w, v) == LET s == BSum(w) IN BMax(t, BMax(BAbs(s), BMax(BAbs(s -- w[1]), BAbs(s ++ v))))
RECURSIVE Calls(_, _, _, _)
Calls(o, in, out, i) ==
  IF i > Len(in) THEN [ok |-> TRUE, o |-> o]
  ELSE LET t == IF o.rule = "top" THEN Top(o.top, o.w, in[i]) ELSE o.top
           win == W!Slide(o.w, in[i])
       IN IF Fits(o, win, t, out[i])
          THEN Calls([o EXCEPT !.w = win, !.top = t, !.avg = out[i]], in, out, i + 1)
          ELSE [ok |-> FALSE, o |-> o]
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [n |-> Ev.n, norm |-> Ev.norm, p |-> Ev.p, rule |-> Ev.rule,
                               w |-> W!Initial(Ev.n, 0), avg |-> 0, top |-> 0])
  /\ Consume
Block ==
  /\ IsEvent("block")
  /\ Len(Ev.in) = Len(Ev.out)
  /\ \E r \in {LET o == objs[Ev.o] IN Calls(o, Conv(o.p, Ev.in), Conv(o.p, Ev.out), 1)} :
       r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
\* The samples in, at least n of them, were given many times; out are the last results
Bulk ==
  /\ IsEvent("bulk")
  /\ Len(Ev.in) = Len(Ev.out) /\ Len(Ev.in) >= objs[Ev.o].n
  /\ \E r \in {LET o == objs[Ev.o]
                   in == Conv(o.p, Ev.in)
                   first == [o EXCEPT !.w = SubSeq(in, Len(in) - o.n + 1, Len(in)),
                                      !.top = BMax(@, BAbsSum(o.w) ++ BAbsSum(in))]
               IN Calls(first, in, Conv(o.p, Ev.out), 1)} :
       r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
\* Mean absolute deviation from the last average
Dev ==
  /\ IsEvent("dev")
  /\ Ok(LET o == objs[Ev.o]
            s == BSum([i \in 1..o.n |-> BAbs(o.w[i] -- o.avg)])
        IN IF o.p = 0 THEN BEq(Ev.r, s // o.n)
           ELSE BAbs((o.n ** FltAt(Ev.r, K)) -- s) \preceq
                  (Shr((o.n + 6) ** (s ++ BAbs(o.avg) ++ BMaxAbs(o.w)), o.p) ++ o.n))
  /\ UNCHANGED objs
  /\ Consume
\* The same for complex samples: o and o2 are the two parts
ComplexDev ==
  /\ IsEvent("cdev")
  /\ Ok(LET o == objs[Ev.o]
            q == objs[Ev.o2]
            s == BSum([i \in 1..o.n |-> LET a == o.w[i] -- o.avg
                                            b == q.w[i] -- q.avg
                                        IN BSqrt((a ** a) ++ (b ** b))])
        IN BAbs((o.n ** FltAt(Ev.r, K)) -- s) \preceq
             (Shr((2 * o.n + 8) ** (s ++ BAbs(o.avg) ++ BMaxAbs(o.w) ++ BAbs(q.avg) ++ BMaxAbs(q.w)), o.p) ++ o.n))
  /\ UNCHANGED objs
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block \/ Bulk \/ Dev \/ ComplexDev
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
