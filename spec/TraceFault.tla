------------------------------- MODULE TraceFault ------------------------------
(* Validates what the writers of wav.hh and netpbm.hh leave behind on a device  *)
(* that takes no more, or if the program ends too early.                        *)
(*                                                                              *)
(* kind and value: limit (the file takes that many bytes), crash (the program   *)
(* ends at the write to the device with that number), exit (it ends before the  *)
(* writer is destroyed), full and once (writes to the device from that number   *)
(* on, or only that one, fail), most (the device takes that many at a time).    *)
(* ended: the program did end early, and in the destructor if finishing.        *)
(* goods, fails, handed: after each call, whether the writer is good, how many  *)
(* writes to the device were seen to fail, how many bytes the file should have. *)
(* length, head, same: of the file which is left, its length, its first bytes,  *)
(* and how many behind the header are those of the complete file, whose length  *)
(* and first bytes are whole and intended.                                      *)
EXTENDS TraceBase, Wav, Faults
\* More than this is not buffered
Slack == 65536
Behind == Ev.length - Ev.overhead
Whole == Ev.length = Ev.whole /\ Ev.head = Ev.intended /\ Ev.same = Ev.whole - Ev.overhead
Goods == [i \in 1..Len(Ev.goods) |-> Ev.goods[i] = 1]
Fits == CASE Ev.kind = "limit" -> Ev.whole <= Ev.value [] OTHER -> Ev.failed = 0
Said ==
  /\ Consistent(Goods)
  /\ \A i \in 1..Len(Goods) :
       /\ Ev.fails[i] > 0 => ~Goods[i]
       /\ IF Ev.kind = "limit"
          THEN (Ev.handed[i] <= Ev.value => Goods[i]) /\ (Ev.handed[i] > Ev.value + Slack => ~Goods[i])
          ELSE Ev.fails[i] = 0 => Goods[i]
Taken == Ev.kind = "limit" => Ev.length <= Ev.value
\* The first bytes of a recording, except for those which depend on its length
Lengths == (5..8) \cup (IF Ev.bits = 32 THEN 47..50 ELSE {}) \cup (Ev.overhead - 3..Ev.overhead)
Beginning == \A i \in 1..Len(Ev.head) : i \in Lengths \/ Ev.head[i] = Ev.intended[i]
\* A write to the device failed in the destructor, maybe between two parts of the header
Late == Ev.finishing /\ Ev.kind # "limit" /\ Ev.fails[Len(Ev.fails)] = 0
Wave ==
  /\ IsEvent("wave")
  /\ Ok(LET open == Ev.length >= Ev.overhead /\ WellFormed(Ev.head) /\ ~KnownSize(Ev.head)
            marked == Ev.length >= Ev.overhead /\ WellFormed(Ev.head) /\ KnownSize(Ev.head)
        IN /\ Len(Ev.intended) = Ev.overhead /\ WellFormed(Ev.intended)
           /\ Bits(Ev.intended) = Ev.bits /\ Channels(Ev.intended) = Ev.channels /\ BEq(Rate(Ev.intended), Ev.rate)
           /\ Said /\ Taken
           /\ Ev.length <= Ev.whole /\ Kept(Behind, Ev.same) /\ Beginning
           /\ ~Ev.ended /\ Fits => Whole
           /\ Honest(marked, Ev.length, Ev.whole)
           /\ marked => Whole
           /\ ~Whole /\ ~Late /\ Ev.length >= Ev.overhead => open
           \* and what a reader says about it
           /\ Ev.rgood = (open \/ marked)
           /\ open => Ev.rframes = -1)
  /\ Consume
Image ==
  /\ IsEvent("image")
  /\ Ok(/\ Said /\ Taken
        /\ Len(Ev.intended) = Ev.overhead
        /\ Ev.length <= Ev.whole /\ Kept(Behind, Ev.same)
        /\ \A i \in 1..Len(Ev.head) : Ev.head[i] = Ev.intended[i]
        /\ ~Ev.ended /\ Fits => Whole)
  /\ Consume
Init == l = 1
Next == Wave \/ Image
Spec == Init /\ [][Next]_l
=============================================================================
