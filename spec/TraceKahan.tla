------------------------------- MODULE TraceKahan ------------------------------
(* Validates traces recorded from kahan.hh.                                     *)
EXTENDS TraceBase, Kahan
VARIABLE objs         \* object -> [p: precision, exact, mag: sums so far, n: inputs, zero: is the remainder zero for sure]
K == 260              \* bits behind the point; every recorded value is a multiple of 2^-K
X(str) == FltAt(str, K)
Start(p, v) == [p |-> p, exact |-> v, mag |-> BAbs(v), n |-> 0]
Plus(o, v) == [o EXCEPT !.exact = @ ++ v, !.mag = @ ++ BAbs(v), !.n = @ + 1]
RECURSIVE All(_, _, _)
All(o, in, i) == IF i > Len(in) THEN o ELSE All(Plus(o, in[i]), in, i + 1)
Fine(o, r) == Accurate(r, o.exact, o.mag, o.n, o.p)
RECURSIVE Steps(_, _, _, _)
Steps(o, in, out, i) ==
  \/ i > Len(in)
  \/ LET q == Plus(o, in[i]) IN Fine(q, out[i]) /\ Steps(q, in, out, i + 1)

New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o, Start(Ev.p, X(Ev.init)))
  /\ Ok(BEq(X(Ev.value), X(Ev.init)))
  /\ Consume
\* Inputs and the value after each of them
Block ==
  /\ IsEvent("block")
  /\ Ok(Steps(objs[Ev.o], FltSeqAt(Ev.in, K), FltSeqAt(Ev.out, K), 1))
  /\ Ok(BEq(X(Ev.value), X(Ev.out[Len(Ev.out)])))      \* asking for the value
  /\ \E q \in {All(objs[Ev.o], FltSeqAt(Ev.in, K), 1)} : objs' = [objs EXCEPT ![Ev.o] = q]
  /\ Consume
\* Many inputs, of which the repetition of a pattern is given: in, times
Bulk ==
  /\ IsEvent("bulk")
  /\ \E q \in {LET in == FltSeqAt(Ev.in, K)
                   o == objs[Ev.o]
               IN [o EXCEPT !.exact = @ ++ (Ev.times ** BSum(in)), !.mag = @ ++ (Ev.times ** BAbsSum(in)), !.n = @ + Ev.times * Len(in)]} :
       /\ Ok(Fine(q, X(Ev.r)))
       /\ objs' = [objs EXCEPT ![Ev.o] = q]
  /\ Consume
\* A copy, which is as far as its original
Copy ==
  /\ IsEvent("copy")
  /\ Ok(BEq(X(Ev.value), X(Ev.of)))
  /\ objs' = Put(objs, Ev.o, objs[Ev.from])
  /\ Consume
\* The same inputs to an object and to a copy made before: out and twin
Twin ==
  /\ IsEvent("twin")
  /\ Ev.out = Ev.twin
  /\ Ok(Steps(objs[Ev.o], FltSeqAt(Ev.in, K), FltSeqAt(Ev.out, K), 1))
  /\ \E q \in {All(objs[Ev.o], FltSeqAt(Ev.in, K), 1)} : objs' = [objs EXCEPT ![Ev.o] = q]
  /\ Consume
\* Asking whether an input changes anything.  before, after: the values; eq: comparison of
\* a copy made before with the object after; probes: whether the two react to further inputs
\* in the same way
Same ==
  /\ IsEvent("same")
  /\ Ev.r = Ev.eq
  /\ Ev.r => (Ev.before = Ev.after /\ Ev.probes)
  /\ (~Ev.probes \/ Ev.before # Ev.after) => ~Ev.r
  /\ Ok(BEq(X(Ev.x), 0) /\ Ev.settled => Ev.r)       \* nothing added to a settled sum
  /\ Ok(~BEq(X(Ev.x), 0) /\ Ev.exact => ~Ev.r)       \* the remainder was zero: it changes something
  /\ Ev.self
  /\ \E q \in {Plus(objs[Ev.o], X(Ev.x))} : Ok(Fine(q, X(Ev.after))) /\ objs' = [objs EXCEPT ![Ev.o] = q]
  /\ Consume
\* The function summing a range is the same as adding one by one
Range ==
  /\ IsEvent("range")
  /\ Ev.r = Ev.single
  /\ Ok(LET o == All(Start(Ev.p, X(Ev.init)), FltSeqAt(Ev.in, K), 1) IN Fine(o, X(Ev.r)))
  /\ UNCHANGED objs
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Block \/ Bulk \/ Copy \/ Twin \/ Same \/ Range
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
