------------------------------- MODULE FaultModel ------------------------------
(* A writer of recordings with a buffer in front of a device which takes a      *)
(* limited number of bytes, shaped like WriteWAV on a buffered stream.  The     *)
(* header is two bytes: one that stays and the mark "?", which is replaced by   *)
(* the length when the writer is destroyed.  The program may end between any    *)
(* two writes to the device, also while the header is being completed.  Two     *)
(* other designs are not truthful, and cannot be told from the sound one unless *)
(* something fails:                                                             *)
(*   careless  completes the header whatever happened before                    *)
(*   early     gives the length in the header from the start                    *)
EXTENDS Faults, TLC, Json
CONSTANTS MaxData, Caps, Limits, Chunks, Designs
VARIABLES design, limit, cap, dev, base, buf, good, data, phase, goods, calls, hist
vars == <<design, limit, cap, dev, base, buf, good, data, phase, goods, calls, hist>>
Least(a, b) == IF a < b THEN a ELSE b
Overlay(d, at, s) == [i \in 1..(IF at + Len(s) > Len(d) THEN at + Len(s) ELSE Len(d)) |->
                        IF i > at /\ i <= at + Len(s) THEN s[i - at] ELSE d[i]]
\* State of the stream: [dev, base, buf, good]
Flushed(s) ==
  IF s.buf = <<>> THEN s
  ELSE LET n == Least(Len(s.buf), IF limit > s.base THEN limit - s.base ELSE 0)
           d == IF n = 0 THEN s.dev ELSE Overlay(s.dev, s.base, SubSeq(s.buf, 1, n))
       IN [dev |-> d, base |-> s.base + n, buf |-> SubSeq(s.buf, n + 1, Len(s.buf)),
           good |-> s.good /\ n = Len(s.buf), calls |-> s.calls + 1]
RECURSIVE Puts(_, _)
Puts(s, x) ==
  IF x = <<>> \/ ~s.good THEN s
  ELSE LET t == IF Len(s.buf) = cap THEN Flushed(s) ELSE s IN
       IF t.good THEN Puts([t EXCEPT !.buf = Append(@, x[1])], SubSeq(x, 2, Len(x))) ELSE t
Now == [dev |-> dev, base |-> base, buf |-> buf, good |-> good, calls |-> calls]
Become(s) == dev' = s.dev /\ base' = s.base /\ buf' = s.buf /\ good' = s.good /\ calls' = s.calls
Number(d) == CASE d = "sound" -> 21 [] d = "careless" -> 22 [] d = "early" -> 23
Init ==
  /\ design \in Designs
  /\ \A d \in Designs : TLCSet(Number(d), FALSE)
  /\ limit \in Limits /\ cap \in Caps
  /\ dev = <<>> /\ base = 0 /\ buf = <<>> /\ good = TRUE /\ data = 0
  /\ phase = "new" /\ goods = <<>> /\ calls = 0 /\ hist = <<>>
Make ==
  /\ phase = "new" /\ phase' = "open"
  /\ \E s \in {Puts(Now, <<"H", IF design = "early" THEN "=" ELSE "?">>)} : Become(s) /\ goods' = <<s.good>>
  /\ UNCHANGED <<design, limit, cap, data, hist>>
Write(op, n) ==
  /\ phase = "open" /\ data + n <= MaxData
  /\ \E s \in {Puts(Now, [i \in 1..n |-> data + i])} : Become(s) /\ goods' = Append(goods, s.good)
  /\ data' = data + n /\ hist' = Append(hist, <<op, n>>)
  /\ UNCHANGED <<design, limit, cap, phase>>
\* The writer is destroyed: what is buffered goes to the device before the position is
\* changed, then the length, then the stream is closed
Seek ==
  /\ phase = "open" /\ phase' = "seek"
  /\ \E s \in {Flushed(Now)} : Become(s)
  /\ UNCHANGED <<design, limit, cap, data, goods, hist>>
Mark ==
  /\ phase = "seek" /\ phase' = "mark"
  /\ IF good \/ design = "careless" THEN base' = 1 /\ buf' = <<"=">> /\ good' = TRUE ELSE UNCHANGED <<base, buf, good>>
  /\ UNCHANGED <<design, limit, cap, dev, data, goods, calls, hist>>
Close ==
  /\ phase = "mark" /\ phase' = "closed"
  /\ \E s \in {Flushed(Now)} : Become(s)
  /\ UNCHANGED <<design, limit, cap, data, goods, hist>>
Crash ==
  /\ phase \in {"open", "seek", "mark"} /\ phase' = "crashed"
  /\ buf' = <<>>
  /\ UNCHANGED <<design, limit, cap, dev, base, good, data, goods, calls, hist>>
Next == Make \/ (\E op \in {"write", "silence"}, n \in Chunks : Write(op, n)) \/ Seek \/ Mark \/ Close \/ Crash
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Behind == Len(dev) - 2
Same == LET bad == {i \in 1..Behind : dev[i + 2] # i} IN IF bad = {} THEN Behind ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
Marked == Len(dev) >= 2 /\ dev[2] = "="
Fits == 2 + data <= limit
PrefixKept == Kept(Behind, Same) /\ Len(dev) <= limit /\ Behind <= data
Truthful == Honest(Marked, Behind, data) \/ (design # "sound" /\ TLCSet(Number(design), TRUE))
GoodsFall == Consistent(goods)
\* While it is good, everything is on the device or on its way there
NothingLost == good /\ phase = "open" => Len(dev) + Len(buf) = 2 + data
\* No more than the buffer can be missing before it is noticed
Noticed == design # "careless" /\ 2 + data > limit + cap => phase \in {"new", "crashed"} \/ ~good
\* Without a crash the file is complete exactly if it fits
Complete == phase = "closed" => (Fits => Marked) /\ (design = "sound" => (Fits <=> Marked) /\ (Fits <=> good))
OthersFail == \A d \in Designs : TLCGet(Number(d)) = (d # "sound")
View == <<design, limit, cap, dev, base, buf, good, data, phase, goods>>
--------------------------------------------------------------------------------
\* For runs of the real writer: the writes, the limit, and after how many writes to the
\* device the program ends, if it does
Emit == phase' \in {"closed", "crashed"} /\ cap = 2 =>
          PrintT("SCRIPT " \o ToJson(hist \o IF phase' = "crashed" THEN <<<<"crash", calls>>>> ELSE <<<<"limit", limit>>>>))
=============================================================================
