------------------------------- MODULE PipeModel -------------------------------
(* A reader at the end of a pipe.  Bytes arrive in portions; the reader is made *)
(* once the header has arrived, and asked for frames which have arrived, or for *)
(* any once the other end is closed.  It has a buffer, which is filled in one   *)
(* of two ways:                                                                 *)
(*   stream    with what is there, and waits only if nothing is                 *)
(*   greedy    until it is full, and waits for that                             *)
(* The first one never waits for anything but what it is asked for, whatever    *)
(* the portions and the buffer.  The second one cannot be told from it with     *)
(* files, which do not make anyone wait.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Header, Frame, MaxBytes, Caps, Portions, Requests, Designs
VARIABLES design, cap, sent, closed, pipe, buf, out, made, asked, waiting, ended, hist
vars == <<design, cap, sent, closed, pipe, buf, out, made, asked, waiting, ended, hist>>
Number(d) == IF d = "stream" THEN 21 ELSE 22
Init ==
  /\ design \in Designs /\ cap \in Caps
  /\ sent = 0 /\ closed = FALSE /\ pipe = <<>> /\ buf = <<>> /\ out = <<>>
  /\ made = FALSE /\ asked = 0 /\ waiting = FALSE /\ ended = FALSE /\ hist = <<>>
  /\ \A d \in Designs : TLCSet(Number(d), FALSE)
Least(a, b) == IF a < b THEN a ELSE b
Rest(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Take(_, _)
\* s: [pipe, buf, out, waiting, ended]; n: bytes still wanted
Take(s, n) ==
  IF n = 0 \/ s.waiting \/ s.ended THEN s
  ELSE IF s.buf # <<>> THEN
         LET m == Least(n, Len(s.buf)) IN Take([s EXCEPT !.out = @ \o SubSeq(s.buf, 1, m), !.buf = Rest(@, m)], n - m)
  ELSE IF s.pipe = <<>> THEN IF closed THEN [s EXCEPT !.ended = TRUE] ELSE [s EXCEPT !.waiting = TRUE]
  ELSE IF design = "greedy" /\ Len(s.pipe) < cap /\ ~closed THEN [s EXCEPT !.waiting = TRUE]
  ELSE LET m == Least(cap, Len(s.pipe)) IN Take([s EXCEPT !.buf = SubSeq(s.pipe, 1, m), !.pipe = Rest(@, m)], n)
Asks(n) ==
  \E s \in {Take([pipe |-> pipe, buf |-> buf, out |-> out, waiting |-> waiting, ended |-> ended], n)} :
    pipe' = s.pipe /\ buf' = s.buf /\ out' = s.out /\ waiting' = s.waiting /\ ended' = s.ended
Send(n) ==
  /\ ~closed /\ ~waiting /\ sent + n <= MaxBytes
  /\ sent' = sent + n
  /\ pipe' = pipe \o [i \in 1..n |-> sent + i]
  /\ hist' = Append(hist, <<"send", n>>)
  /\ UNCHANGED <<design, cap, closed, buf, out, made, asked, waiting, ended>>
Make ==
  /\ ~made /\ sent >= Header /\ made' = TRUE /\ asked' = Header /\ Asks(Header)
  /\ hist' = Append(hist, <<"make", 0>>)
  /\ UNCHANGED <<design, cap, sent, closed>>
Read(k) ==
  /\ made /\ ~waiting /\ ~ended
  /\ closed \/ asked + k * Frame <= sent
  /\ asked' = asked + k * Frame /\ Asks(k * Frame)
  /\ hist' = Append(hist, <<"read", k>>)
  /\ UNCHANGED <<design, cap, sent, closed, made>>
Close ==
  /\ made /\ ~closed /\ ~waiting /\ closed' = TRUE
  /\ hist' = Append(hist, <<"close", 0>>)
  /\ UNCHANGED <<design, cap, sent, pipe, buf, out, made, asked, waiting, ended>>
Next == (\E n \in Portions : Send(n)) \/ Make \/ (\E k \in Requests : Read(k)) \/ Close
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
InOrder == out = [i \in 1..Len(out) |-> i] /\ out \o buf \o pipe = [i \in 1..sent |-> i]
NeverWaits == waiting => design = "greedy" /\ TLCSet(Number(design), TRUE)
Served == made /\ ~waiting => Len(out) = Least(asked, sent) /\ (ended <=> asked > sent)
OthersFail == \A d \in Designs : TLCGet(Number(d)) = (d # "stream")
View == <<design, cap, sent, closed, pipe, buf, out, made, asked, waiting, ended>>
\* For schedules: after the end
Emit == closed' /\ ~closed /\ asked <= sent => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
