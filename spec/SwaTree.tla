--------------------------------- MODULE SwaTree -------------------------------
(* The implementation of swa.hh: a tree of partial results in an array of 2N    *)
(* elements, leaves at N..2N-1.  The elements are bags of samples, the free     *)
(* commutative monoid: whatever holds for them holds for every commutative and  *)
(* associative operation.                                                       *)
EXTENDS Window, TLC, Json
CONSTANTS N, Values
VARIABLES tree, leaf, w, out, ops, hist
vars == <<tree, leaf, w, out, ops, hist>>
NoBag == [v \in Values |-> 0]
One(v) == [NoBag EXCEPT ![v] = 1]
Plus(a, b) == [v \in Values |-> a[v] + b[v]]
Init ==
  /\ tree = [i \in 0..2*N-1 |-> NoBag] /\ leaf = N
  /\ w = Initial(N, NoBag) /\ out = NoBag /\ ops = 0 /\ hist = <<>>
Xor1(c) == IF c % 2 = 0 THEN c + 1 ELSE c - 1
RECURSIVE Up(_, _)
Up(t, child) ==
  LET parent == child \div 2 IN
  IF parent = 0 THEN t
  ELSE Up([t EXCEPT ![parent] = Plus(t[child], t[Xor1(child)])], parent)
RECURSIVE Depth(_)
Depth(i) == IF i \div 2 = 0 THEN 0 ELSE 1 + Depth(i \div 2)
Call(v) ==
  /\ tree' = Up([tree EXCEPT ![leaf] = One(v)], leaf)
  /\ leaf' = IF leaf + 1 >= 2*N THEN N ELSE leaf + 1
  /\ ops' = Depth(leaf)
  /\ out' = tree'[1]
  /\ w' = Slide(w, One(v))
  /\ hist' = Append(hist, <<"in", v>>)
Next == \E v \in Values : Call(v)
Spec == Init /\ [][Next]_vars
RECURSIVE SumBag(_)
SumBag(s) == IF s = <<>> THEN NoBag ELSE Plus(Head(s), SumBag(Tail(s)))
CombinesWindow == out = SumBag(w)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
FewOps == ops <= Log2(N) + 1
View == <<tree, leaf, w, out, ops>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
