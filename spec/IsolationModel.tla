----------------------------- MODULE IsolationModel ----------------------------
(* Designs of a class whose objects return their previous input, or at first    *)
(* what they were made with.  TLC explores all schedules of making, calling,    *)
(* copying, assigning and dropping objects in a few places in memory.  The      *)
(* histories of the sound design always fit into one tree, and each of the      *)
(* others is found out: the tree decides, and schedules of this size suffice.   *)
EXTENDS Isolation, Sequences, Integers, Json
CONSTANTS Places, Inits, Inputs, Depth, Designs
VARIABLES design,
          live,          \* places that hold an object
          ref, val,      \* the cell an object keeps its value in, and what the cells hold
          node, tree, ok, hist
vars == <<design, live, ref, val, node, tree, ok, hist>>
Static == 0
Own(p) == IF design = "static" THEN Static ELSE p
Unsound == Designs \ {"sound"}
Number(d) == CASE d = "static" -> 11        \* one value for all objects
               [] d = "stale" -> 12         \* not initialized
               [] d = "shallow" -> 13       \* a copy shares the value of the original
               [] d = "forgetful" -> 14     \* a copy starts anew
               [] d = "unassigned" -> 15    \* assignment leaves the value alone
               [] d = "counting" -> 16      \* the number of living objects shows
Init ==
  /\ design \in Designs
  /\ live = {} /\ ref = [p \in Places |-> p] /\ val = [c \in Places \cup {Static} |-> 0]
  /\ node = [p \in Places |-> Root] /\ tree = NoTree /\ ok = TRUE /\ hist = <<>>
  /\ \A d \in Unsound : TLCSet(Number(d), FALSE)
Log(w, n) == Len(hist) < Depth /\ ok /\ hist' = Append(hist, <<w, n>>)
Noted(p, x, y) ==
  /\ ok' = Fits(tree, node[p], x, y)
  /\ tree' = Grown(tree, node[p], x, y)
  /\ node' = [node EXCEPT ![p] = After(tree', node[p], x)]
  /\ (~ok' /\ design # "sound" => TLCSet(Number(design), TRUE))
Make(p, i) ==
  /\ p \notin live
  /\ live' = live \cup {p}
  /\ ref' = [ref EXCEPT ![p] = Own(p)]
  /\ val' = IF design = "stale" THEN val ELSE [val EXCEPT ![Own(p)] = i]
  /\ ok' = TRUE
  /\ tree' = Grown(tree, Root, <<"make", i>>, 0)
  /\ node' = [node EXCEPT ![p] = After(tree', Root, <<"make", i>>)]
  /\ Log("make", p)
  /\ UNCHANGED design
Call(p, x) ==
  /\ p \in live
  /\ Noted(p, <<"call", x>>, IF design = "counting" THEN val[ref[p]] + Cardinality(live) ELSE val[ref[p]])
  /\ val' = [val EXCEPT ![ref[p]] = x]
  /\ Log("call", p)
  /\ UNCHANGED <<design, live, ref>>
\* Object p becomes what object o is
Copy(o, p) ==
  /\ o \in live /\ o # p
  /\ live' = live \cup {p}
  /\ IF design = "shallow" /\ p \notin live
     THEN ref' = [ref EXCEPT ![p] = ref[o]] /\ UNCHANGED val
     ELSE /\ ref' = IF p \in live THEN ref ELSE [ref EXCEPT ![p] = Own(p)]
          /\ val' = CASE design = "forgetful" /\ p \notin live -> [val EXCEPT ![ref'[p]] = 0]
                      [] design = "unassigned" /\ p \in live -> val
                      [] OTHER -> [val EXCEPT ![ref'[p]] = val[ref[o]]]
  /\ node' = [node EXCEPT ![p] = node[o]]
  /\ Log("copy", 10 * o + p)
  /\ UNCHANGED <<design, tree, ok>>
Drop(p) ==
  /\ p \in live
  /\ live' = live \ {p}
  /\ Log("drop", p)
  /\ UNCHANGED <<design, ref, val, node, tree, ok>>
Next ==
  \/ \E p \in Places, i \in Inits : Make(p, i)
  \/ \E p \in Places, x \in Inputs : Call(p, x)
  \/ \E o, p \in Places : Copy(o, p)
  \/ \E p \in Places : Drop(p)
Spec == Init /\ [][Next]_vars
SoundFits == design = "sound" => ok
\* Every other design was found out in some schedule
OthersFail == \A d \in Unsound : TLCGet(Number(d))
State == <<design, live, ref, val, node, tree, ok, Len(hist)>>
--------------------------------------------------------------------------------
\* For schedules: which objects live, how their histories relate, and the last step
Related == {<<o, p>> \in Places \X Places : o < p /\ o \in live /\ p \in live /\ node[o] = node[p]}
View == <<live, Related, [p \in live |-> node[p] # Root /\ \E k \in DOMAIN tree : k[1] = node[p]],
          IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], IF Len(hist) < 2 THEN <<>> ELSE hist[Len(hist) - 1]>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
