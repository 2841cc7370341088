---------------------------------- MODULE Stack --------------------------------
(* A stack of fixed capacity (stack.hh).  The abstract state is the sequence of *)
(* stored values, oldest first.                                                 *)
EXTENDS Integers, Sequences

Legal(op, s, cap) ==
  CASE op = "push" -> Len(s) < cap
    [] op \in {"pop", "top", "first"} -> Len(s) > 0
    [] OTHER -> TRUE
After(op, v, s) ==
  CASE op = "push" -> Append(s, v)
    [] op = "pop" -> SubSeq(s, 1, Len(s) - 1)
    [] op = "clear" -> <<>>
    [] OTHER -> s
Size(s) == Len(s)
Empty(s) == s = <<>>
Full(s, cap) == Len(s) = cap
Top(s) == s[Len(s)]
First(s) == s[1]
-----------------------------------------------------------------------------
CONSTANTS Cap, Values
VARIABLE s

Init == s = <<>>
Do(op, v) == Legal(op, s, Cap) /\ s' = After(op, v, s)
Next == (\E v \in Values : Do("push", v)) \/ Do("pop", 0) \/ Do("clear", 0)
Spec == Init /\ [][Next]_s
=============================================================================
