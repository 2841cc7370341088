------------------------------- MODULE TraceHeader -----------------------------
(* Validates what the file readers say about arbitrary bytes: good is only what *)
(* is a header, and what is one is good.  later: good after an attempt to read. *)
EXTENDS TraceBase
W == INSTANCE Wav
P == INSTANCE Pnm
WavFile ==
  /\ IsEvent("wav")
  /\ Ok(Ev.good = W!WellFormed(Ev.bytes))
  /\ Ev.later => Ev.good
  /\ Consume
\* Dimensions of zero, a maximum above 255 and enormous numbers may be refused or not
Plain(h) == h.ok /\ \A v \in {"width", "height", "max"} : h[v] \succ 0 /\ h[v] \prec 1000000000 /\ h.max \preceq 255
PnmFile ==
  /\ IsEvent("pnm")
  /\ Ok(LET h == P!Parse(Ev.bytes) IN (Ev.good => h.ok) /\ (Plain(h) => Ev.good))
  /\ Ev.later => Ev.good
  /\ Consume
Missing ==
  /\ IsEvent("missing")
  /\ ~Ev.good /\ ~Ev.later
  /\ Consume
Init == l = 1
Next == WavFile \/ PnmFile \/ Missing
Spec == Init /\ [][Next]_l
=============================================================================
