------------------------------ MODULE ThreadsModel -----------------------------
(* Objects used by several threads, one each, with nothing that orders the      *)
(* threads.  A call has steps between which other threads may run.  An object   *)
(* returns its previous input plus the present one, in one of several designs:  *)
(*   sound     everything is in the object or local to the call                 *)
(*   scratch   an intermediate result is in memory shared by all objects        *)
(*   cache     the last sum computed by any object is kept and looked up        *)
(*   lazy      a shared table is filled by the first call                       *)
(* The results of the sound one always fit into one tree.  Those of the others  *)
(* do not, in some schedule, but they do whenever calls follow one another, so  *)
(* no test with one thread can find out.  And whatever the schedule: in the end *)
(* a place in memory was written by one thread and used by another.             *)
EXTENDS Isolation, Sequences, Integers, Json
CONSTANTS Threads, Inputs, Calls, Designs
VARIABLES design, pc, prev, arg, tmp, local, left,
          mem,          \* shared memory: scratch, the cache and the table
          used,         \* who wrote and who read which place
          node, tree, ok, serial, hist
vars == <<design, pc, prev, arg, tmp, local, left, mem, used, node, tree, ok, serial, hist>>
Unsound == Designs \ {"sound"}
Number(d) == CASE d = "scratch" -> 21 [] d = "cache" -> 22 [] d = "lazy" -> 23
Init ==
  /\ design \in Designs
  /\ pc = [t \in Threads |-> "idle"] /\ prev = [t \in Threads |-> 0] /\ arg = [t \in Threads |-> 0]
  /\ tmp = [t \in Threads |-> 0] /\ local = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Calls]
  /\ mem = [scratch |-> 0, a |-> 0, b |-> 0, sum |-> 0, filled |-> FALSE, one |-> 0]
  /\ used = {} /\ tree = (<<Root, "make">> :> [to |-> 1, y |-> 0])
  /\ node = [t \in Threads |-> 1] /\ ok = TRUE /\ serial = TRUE /\ hist = <<>>
  /\ \A d \in Unsound : TLCSet(Number(d), FALSE)
Writes(t, places) == {<<t, "w", p>> : p \in places}
Reads(t, places) == {<<t, "r", p>> : p \in places}
Others(t) == \E u \in Threads \ {t} : pc[u] # "idle"
Begin(t, x) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ arg' = [arg EXCEPT ![t] = x] /\ pc' = [pc EXCEPT ![t] = "one"]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ serial' = (serial /\ ~Others(t))
  /\ hist' = Append(hist, <<"call", t>>)
  /\ UNCHANGED <<design, prev, tmp, local, mem, used, node, tree, ok>>
\* The sum is put somewhere
First(t) ==
  LET s == prev[t] + arg[t] IN
  /\ pc[t] = "one" /\ pc' = [pc EXCEPT ![t] = "two"]
  /\ CASE design = "sound" -> tmp' = [tmp EXCEPT ![t] = s] /\ UNCHANGED <<mem, used, local>>
       [] design = "scratch" -> mem' = [mem EXCEPT !.scratch = s] /\ used' = used \cup Writes(t, {"scratch"}) /\ UNCHANGED <<tmp, local>>
       [] design = "cache" ->
            \* looked up, and if it is something else the arguments are put there
            /\ local' = [local EXCEPT ![t] = IF mem.a = prev[t] /\ mem.b = arg[t] THEN 1 ELSE 0]
            /\ IF mem.a = prev[t] /\ mem.b = arg[t] THEN UNCHANGED mem ELSE mem' = [mem EXCEPT !.a = prev[t], !.b = arg[t]]
            /\ used' = used \cup Reads(t, {"a", "b"}) \cup
                       IF mem.a = prev[t] /\ mem.b = arg[t] THEN {} ELSE Writes(t, {"a", "b"})
            /\ UNCHANGED tmp
       [] design = "lazy" ->
            /\ local' = [local EXCEPT ![t] = IF mem.filled THEN 1 ELSE 0]
            /\ mem' = [mem EXCEPT !.filled = TRUE]
            /\ used' = used \cup Reads(t, {"filled"}) \cup IF mem.filled THEN {} ELSE Writes(t, {"filled"})
            /\ UNCHANGED tmp
  /\ UNCHANGED <<design, prev, arg, left, node, tree, ok, serial, hist>>
Second(t) ==
  LET s == prev[t] + arg[t] IN
  /\ pc[t] = "two" /\ pc' = [pc EXCEPT ![t] = "three"]
  /\ CASE design = "sound" -> UNCHANGED <<mem, used, tmp>>
       [] design = "scratch" -> tmp' = [tmp EXCEPT ![t] = mem.scratch] /\ used' = used \cup Reads(t, {"scratch"}) /\ UNCHANGED mem
       [] design = "cache" ->
            IF local[t] = 1 THEN tmp' = [tmp EXCEPT ![t] = mem.sum] /\ used' = used \cup Reads(t, {"sum"}) /\ UNCHANGED mem
            ELSE tmp' = [tmp EXCEPT ![t] = s] /\ mem' = [mem EXCEPT !.sum = s] /\ used' = used \cup Writes(t, {"sum"})
       [] design = "lazy" ->
            IF local[t] = 1 THEN tmp' = [tmp EXCEPT ![t] = s * mem.one] /\ used' = used \cup Reads(t, {"one"}) /\ UNCHANGED mem
            ELSE tmp' = [tmp EXCEPT ![t] = s] /\ mem' = [mem EXCEPT !.one = 1] /\ used' = used \cup Writes(t, {"one"})
  /\ UNCHANGED <<design, prev, arg, left, local, node, tree, ok, serial, hist>>
Return(t) ==
  /\ pc[t] = "three" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ prev' = [prev EXCEPT ![t] = arg[t]]
  /\ ok' = (ok /\ tmp[t] = prev[t] + arg[t] /\ Fits(tree, node[t], arg[t], tmp[t]))
  /\ tree' = Grown(tree, node[t], arg[t], tmp[t])
  /\ node' = [node EXCEPT ![t] = After(tree', node[t], arg[t])]
  /\ (~ok' /\ design # "sound" => TLCSet(Number(design), TRUE))
  /\ UNCHANGED <<design, arg, tmp, local, left, mem, used, serial, hist>>
Next == \E t \in Threads : (\E x \in Inputs : Begin(t, x)) \/ First(t) \/ Second(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Race == \E a, b \in used : a[1] # b[1] /\ a[3] = b[3] /\ a[2] = "w"
SoundFits == design = "sound" => ok /\ ~Race
\* One call after the other tells nothing
SerialFits == serial => ok
\* All threads have made their calls: the shared memory shows in any schedule
Finished == \A t \in Threads : left[t] = 0 /\ pc[t] = "idle"
AlwaysRaces == Finished /\ design # "sound" => Race
OthersFail == \A d \in Unsound : TLCGet(Number(d))
View == <<design, pc, prev, arg, tmp, local, left, mem, used, node, tree, ok, serial>>
--------------------------------------------------------------------------------
\* For schedules: the orders of whole calls
Whole == \A t \in Threads : Others(t) => pc'[t] = pc[t]
Emit == /\ Whole
        /\ (pc' # pc /\ (\A t \in Threads : pc'[t] = "idle" /\ left'[t] = 0) => PrintT("SCRIPT " \o ToJson(hist')))
=============================================================================
