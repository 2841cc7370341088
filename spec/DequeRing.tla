-------------------------------- MODULE DequeRing ------------------------------
(* The implementation of deque.hh: a ring buffer with head, tail and count.     *)
(* TLC checks that it implements Deque (refinement) and that its observers      *)
(* return what Deque's do.  The same model generates, as a transition cover of  *)
(* its state graph, the call sequences which the harness replays into the code. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cap, Values
VARIABLES buf, head, tail, count,
          hist        \* history variable: the calls so far (hidden by VIEW)
core == <<buf, head, tail, count>>
vars == <<buf, head, tail, count, hist>>

Inc(i) == IF i + 1 >= Cap THEN 0 ELSE i + 1
Dec(i) == IF i - 1 < 0 THEN Cap - 1 ELSE i - 1

Init ==
  /\ buf = [i \in 0..Cap-1 |-> 0]
  /\ head = Cap - 1 /\ tail = 0 /\ count = 0
  /\ hist = <<>>

Log(op, v) == hist' = Append(hist, <<op, v>>)

PushBack(v) ==
  /\ count < Cap
  /\ count' = count + 1
  /\ tail' = Dec(tail)
  /\ buf' = [buf EXCEPT ![tail'] = v]
  /\ UNCHANGED head
  /\ Log("push_back", v)
PushFront(v) ==
  /\ count < Cap
  /\ count' = count + 1
  /\ head' = Inc(head)
  /\ buf' = [buf EXCEPT ![head'] = v]
  /\ UNCHANGED tail
  /\ Log("push_front", v)
PopBack ==
  /\ count > 0
  /\ count' = count - 1
  /\ tail' = Inc(tail)
  /\ UNCHANGED <<buf, head>>
  /\ Log("pop_back", 0)
PopFront ==
  /\ count > 0
  /\ count' = count - 1
  /\ head' = Dec(head)
  /\ UNCHANGED <<buf, tail>>
  /\ Log("pop_front", 0)
Clear ==
  /\ head' = Cap - 1 /\ tail' = 0 /\ count' = 0
  /\ UNCHANGED buf
  /\ Log("clear", 0)

Next ==
  \/ \E v \in Values : PushBack(v) \/ PushFront(v)
  \/ PopBack \/ PopFront \/ Clear
Spec == Init /\ [][Next]_vars

\* Refinement mapping: the stored values from head down to tail
Stored == [i \in 1..count |-> buf[(head - (i - 1)) % Cap]]
A == INSTANCE Deque WITH q <- Stored
Refines == A!Spec
ObserversAgree ==
  /\ count = A!Size(Stored)
  /\ (count = 0) = A!Empty(Stored)
  /\ (count = Cap) = A!Full(Stored, Cap)
  /\ count > 0 => buf[head] = A!Front(Stored) /\ buf[tail] = A!Back(Stored)
RingConsistent == count > 0 => (head - tail + 1 - count) % Cap = 0

View == core
\* Printed once per transition of the state graph: a path to it
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
