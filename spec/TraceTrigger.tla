------------------------------ MODULE TraceTrigger -----------------------------
(* Validates traces recorded from trigger.hh.  Inputs and thresholds are exact. *)
EXTENDS TraceBase, Trigger
VARIABLE objs
F == 1200
X(s) == FltAt(s, F)
\* The default threshold, one third, is rounded to the type: p bits
Third(p) == IF p = 24 THEN X("0x1.555556p-2") ELSE X("0x1.5555555555555p-2")
New ==
  /\ IsEvent("new")
  /\ objs' = Put(objs, Ev.o,
       CASE Ev.kind = "schmitt0" -> [kind |-> "schmitt", on |-> Ev.on, lo |-> BNeg(Third(Ev.p)), hi |-> Third(Ev.p)]
         [] Ev.kind = "schmitt1" -> [kind |-> "schmitt", on |-> Ev.on, lo |-> BNeg(X(Ev.hi)), hi |-> X(Ev.hi)]
         [] Ev.kind = "schmitt2" -> [kind |-> "schmitt", on |-> Ev.on, lo |-> X(Ev.lo), hi |-> X(Ev.hi)]
         [] OTHER -> [kind |-> Ev.kind, on |-> Ev.on])
  /\ Consume
Level ==
  /\ IsEvent("level")
  /\ LET o == objs[Ev.o]
         n == Schmitt(o.on, X(Ev.x), o.lo, o.hi) IN
     /\ o.kind = "schmitt"
     /\ Ev.r = n
     /\ objs' = [objs EXCEPT ![Ev.o].on = n]
  /\ Consume
Edge ==
  /\ IsEvent("edge")
  /\ LET o == objs[Ev.o] IN
     /\ o.kind \in {"rising", "falling"}
     /\ Ev.r = IF o.kind = "rising" THEN Rising(o.on, Ev.x) ELSE Falling(o.on, Ev.x)
     /\ objs' = [objs EXCEPT ![Ev.o].on = Ev.x]
  /\ Consume
\* Others in between: the last result, or the last input of an edge trigger
Skip == IsEvent("skip") /\ objs' = [objs EXCEPT ![Ev.o].on = Ev.on] /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Level \/ Edge \/ Skip
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
