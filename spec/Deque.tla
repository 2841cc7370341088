---------------------------------- MODULE Deque --------------------------------
(* A double-ended queue of fixed capacity (deque.hh).                           *)
(*                                                                              *)
(* The abstract state is the sequence of stored values, front first.  Ops says  *)
(* when an operation is legal, what it returns and how it changes the sequence; *)
(* the action specification below and the trace specification TraceDeque both   *)
(* use it.                                                                      *)
EXTENDS Integers, Sequences

\* "none" is the result of operations that return nothing
Legal(op, q, cap) ==
  CASE op \in {"push_back", "push_front"} -> Len(q) < cap
    [] op \in {"pop_back", "pop_front", "back", "front"} -> Len(q) > 0
    [] OTHER -> TRUE

After(op, v, q) ==
  CASE op = "push_back" -> Append(q, v)
    [] op = "push_front" -> <<v>> \o q
    [] op = "pop_back" -> SubSeq(q, 1, Len(q) - 1)
    [] op = "pop_front" -> Tail(q)
    [] op = "clear" -> <<>>
    [] OTHER -> q

\* What the observers return in state q
Size(q) == Len(q)
Empty(q) == q = <<>>
Full(q, cap) == Len(q) = cap
Front(q) == q[1]
Back(q) == q[Len(q)]
-----------------------------------------------------------------------------
CONSTANTS Cap, Values
VARIABLE q

Init == q = <<>>
Do(op, v) == Legal(op, q, Cap) /\ q' = After(op, v, q)
Next ==
  \/ \E v \in Values : Do("push_back", v) \/ Do("push_front", v)
  \/ Do("pop_back", 0) \/ Do("pop_front", 0) \/ Do("clear", 0)
Spec == Init /\ [][Next]_q

TypeOK == q \in Seq(Values) /\ Len(q) <= Cap
=============================================================================
