------------------------------- MODULE TracePhasor -----------------------------
(* Validates traces recorded from phasor.hh.                                    *)
EXTENDS TraceBase, Phasors
VARIABLE objs         \* object -> its state, see Phasors.tla
Set(o) == \E n \in {o} : objs' = [objs EXCEPT ![Ev.o] = n]
New == IsEvent("new") /\ objs' = Put(objs, Ev.o, Started(Ev.p)) /\ Consume
Reset == IsEvent("reset") /\ Set(Restarted(objs[Ev.o])) /\ Consume
Tune(a, kind) == Set(Tuned(objs[Ev.o], a, StepErr(kind, a)))
Turn == IsEvent("turn") /\ Tune(Turns(Ev.n, Ev.N), "turn") /\ Consume
Rad == IsEvent("rad") /\ Tune(V(Ev.v), "rad") /\ Consume
Freq == IsEvent("freq") /\ Tune(Cycles(V(Ev.v)), "freq") /\ Consume
Skip == IsEvent("skip") /\ Set(Passed(objs[Ev.o], Ev.n)) /\ Consume
\* Consecutive calls: real and imaginary parts
RECURSIVE Calls(_, _, _)
Calls(o, z, i) ==
  IF 2 * i > Len(z) THEN [ok |-> TRUE, o |-> o]
  ELSE IF Fits(o, <<z[2*i-1], z[2*i]>>) THEN Calls(Returned(o, <<z[2*i-1], z[2*i]>>), z, i + 1)
  ELSE [ok |-> FALSE]
Call ==
  /\ IsEvent("call")
  /\ \E r \in {Calls(objs[Ev.o], Vs(Ev.z), 1)} : r.ok /\ objs' = [objs EXCEPT ![Ev.o] = r.o]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Reset \/ Turn \/ Rad \/ Freq \/ Skip \/ Call
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
