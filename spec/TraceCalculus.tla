----------------------------- MODULE TraceCalculus -----------------------------
(* Validates traces recorded from calculus.hh.  Where p = 0 all recorded values *)
(* are exact: these are histories whose sums are representable.  Otherwise each *)
(* difference has one rounding, and a sum one of each sum so far.               *)
EXTENDS TraceBase
VARIABLE objs         \* object -> [kind, s: running sum, or previous input, p, err: of the sum]
F == 200
\* A sample is one string (real) or two (complex); integers are decimal
X(c) == IF Len(c) = 1 THEN <<FltAt(c[1], F), 0>> ELSE <<FltAt(c[1], F), FltAt(c[2], F)>>
Add(a, b) == <<a[1] ++ b[1], a[2] ++ b[2]>>
Sub(a, b) == <<a[1] -- b[1], a[2] -- b[2]>>
\* two units of roundoff
Unit(a, p) == IF p = 0 THEN 0 ELSE Shr(BAbs(a), p - 1)
Same(a, b) == BEq(a[1], b[1]) /\ BEq(a[2], b[2])
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, [kind |-> Ev.kind, s |-> X(Ev.start), p |-> Ev.p, err |-> 0])
  /\ Consume
Call ==
  /\ IsEvent("call")
  /\ LET o == objs[Ev.o]
         x == X(Ev.x) IN
     IF o.kind = "int"
     THEN /\ Ok(IF o.p = 0 THEN Same(X(Ev.r), Add(o.s, x))
                ELSE BAbs(X(Ev.r)[1] -- Add(o.s, x)[1]) \preceq o.err ++ Unit(Add(o.s, x)[1], o.p))
          /\ objs' = [objs EXCEPT ![Ev.o].s = Add(@, x), ![Ev.o].err = @ ++ Unit(Add(o.s, x)[1], o.p)]
     ELSE /\ Ok(IF o.p = 0 THEN Same(X(Ev.r), Sub(x, o.s))
                ELSE BAbs(X(Ev.r)[1] -- Sub(x, o.s)[1]) \preceq Unit(Sub(x, o.s)[1], o.p))
          /\ objs' = [objs EXCEPT ![Ev.o].s = x]
  /\ Consume
\* Others in between, exact ones: the last input, their sum, and the last result of an integrator
Skip ==
  /\ IsEvent("skip")
  /\ LET o == objs[Ev.o] IN
     IF o.kind = "int" THEN Ok(Same(X(Ev.r), Add(o.s, X(Ev.sum)))) /\ objs' = [objs EXCEPT ![Ev.o].s = X(Ev.r)]
     ELSE objs' = [objs EXCEPT ![Ev.o].s = X(Ev.x)]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Call \/ Skip
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
