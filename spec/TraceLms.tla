-------------------------------- MODULE TraceLms -------------------------------
(* Validates traces recorded from lms.hh.                                       *)
EXTENDS TraceBase, Lms
VARIABLE objs         \* object -> [p, f: its coefficients, h: its last inputs]
Z(n) == [i \in 1..n |-> 0]
None(n) == << Z(n), Z(n) >>
\* Parts of values; real ones have no imaginary parts
Part(key) == IF Len(key) = 2 THEN << V(key[1]), V(key[2]) >> ELSE << V(key[1]), 0 >>
Coeffs == << Vs(Ev.f), IF Has("g") THEN Vs(Ev.g) ELSE Z(Len(Ev.f)) >>
New ==
  /\ IsEvent("new")
  /\ Ok(Len(Ev.f) = Ev.n /\ BEq(BMaxAbs(Coeffs[1]), 0) /\ BEq(BMaxAbs(Coeffs[2]), 0))
  /\ objs' = Put(objs, Ev.o, [p |-> Ev.p, f |-> None(Ev.n), h |-> None(Ev.n)])
  /\ Consume
Step ==
  /\ IsEvent("step")
  /\ LET o == objs[Ev.o] IN
     \E h \in {Slide(o.h, Part(Ev.x))} :
     \E g \in {Coeffs} :
     /\ Ok(LET e == Part(Ev.r)
               mu == IF Has("mu") THEN V(Ev.mu) ELSE One
           IN /\ Len2(g) = Len2(o.f)
              /\ ErrorOk(o.f, h, Part(Ev.d), e, o.p)
              /\ MovesOk(o.f, h, Part(Ev.d), e, mu, g, o.p))
     /\ objs' = [objs EXCEPT ![Ev.o].f = g, ![Ev.o].h = h]
  /\ Consume
Copy == IsEvent("copy") /\ objs' = Put(objs, Ev.to, objs[Ev.o]) /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ Step \/ Copy
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
