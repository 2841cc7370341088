----------------------------- MODULE TraceIsolation ----------------------------
(* Validates traces of objects of all classes, made, called, copied, assigned   *)
(* and dropped in schedules, and of the same histories on objects which are     *)
(* alone: all of them have to fit into one tree.                                *)
EXTENDS TraceBase, Isolation
VARIABLES tree, node
Start ==
  /\ IsEvent("start")
  /\ tree' = NoTree /\ node' = <<>>
  /\ Consume
\* k: what is made, with which arguments
Make ==
  /\ IsEvent("make")
  /\ tree' = Grown(tree, Root, Ev.k, "")
  /\ node' = Put(node, Ev.o, After(tree', Root, Ev.k))
  /\ Consume
Call ==
  /\ IsEvent("call")
  /\ Fits(tree, node[Ev.o], Ev.x, Ev.y)
  /\ tree' = Grown(tree, node[Ev.o], Ev.x, Ev.y)
  /\ node' = [node EXCEPT ![Ev.o] = After(tree', @, Ev.x)]
  /\ Consume
Copy ==
  /\ IsEvent("copy")
  /\ node' = Put(node, Ev.p, node[Ev.o])
  /\ UNCHANGED tree
  /\ Consume
\* A function without state, called with the arguments x
Function ==
  /\ IsEvent("pure")
  /\ Fits(tree, Root, <<Ev.k, Ev.x>>, Ev.y)
  /\ tree' = Grown(tree, Root, <<Ev.k, Ev.x>>, Ev.y)
  /\ UNCHANGED node
  /\ Consume
\* Several threads have been at work, the calls of which follow; races counts the places in memory
\* that one of them wrote and another one used
Threads ==
  /\ IsEvent("threads")
  /\ Ev.races = 0
  /\ UNCHANGED <<tree, node>>
  /\ Consume
Init == l = 1 /\ tree = NoTree /\ node = <<>>
Next == Start \/ Make \/ Call \/ Copy \/ Function \/ Threads
Spec == Init /\ [][Next]_<<l, tree, node>>
=============================================================================
