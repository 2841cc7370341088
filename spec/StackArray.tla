------------------------------- MODULE StackArray ------------------------------
(* The implementation of stack.hh: an array and the position of the newest      *)
(* value, checked to implement Stack.                                           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cap, Values
VARIABLES buf, pos, hist
vars == <<buf, pos, hist>>

Init == buf = [i \in 0..Cap-1 |-> 0] /\ pos = -1 /\ hist = <<>>
Log(op, v) == hist' = Append(hist, <<op, v>>)
Push(v) == pos < Cap - 1 /\ pos' = pos + 1 /\ buf' = [buf EXCEPT ![pos'] = v] /\ Log("push", v)
Pop == pos >= 0 /\ pos' = pos - 1 /\ UNCHANGED buf /\ Log("pop", 0)
Clear == pos' = -1 /\ UNCHANGED buf /\ Log("clear", 0)
Next == (\E v \in Values : Push(v)) \/ Pop \/ Clear
Spec == Init /\ [][Next]_vars

Stored == [i \in 1..pos+1 |-> buf[i-1]]
A == INSTANCE Stack WITH s <- Stored
Refines == A!Spec
ObserversAgree ==
  /\ pos + 1 = A!Size(Stored)
  /\ (pos = -1) = A!Empty(Stored)
  /\ (pos = Cap - 1) = A!Full(Stored, Cap)
  /\ pos >= 0 => buf[pos] = A!Top(Stored) /\ buf[0] = A!First(Stored)
View == <<buf, pos>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
