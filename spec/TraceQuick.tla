------------------------------- MODULE TraceQuick ------------------------------
(* Validates traces recorded from quick.hh.  Elements are recorded as ranks.    *)
EXTENDS TraceBase, Quick
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* Generous bound of order n log n on the number of comparisons
FewSteps == Has("comps") => Ev.comps <= Len(Ev.in) * (6 * Log2(Len(Ev.in)) + 64)
Sort ==
  /\ IsEvent("sort")
  /\ Ok(Ev.out = Sorted(Ev.in))
  /\ Ev.guards
  /\ FewSteps
  /\ Consume
Select ==
  /\ IsEvent("select")
  /\ Ok(Selected(Ev.in, Ev.out, Ev.k))
  /\ Ev.r = Ev.out[Ev.k + 1]
  /\ Ev.guards
  /\ FewSteps
  /\ Consume
Try ==
  /\ IsEvent("try")
  /\ Ev.outcome = IF Ev.n > 0 /\ Ev.k < Ev.n THEN "returned" ELSE "abort"
  /\ Consume
Init == l = 1
Next == Sort \/ Select \/ Try
Spec == Init /\ [][Next]_l
=============================================================================
