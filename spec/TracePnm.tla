-------------------------------- MODULE TracePnm -------------------------------
(* Validates traces recorded from netpbm.hh.                                    *)
EXTENDS TraceBase, Pnm
VARIABLE objs
\* Precision of the transfer curve: relative 2^-Bits
CurveBits(p) == IF p = 24 THEN 18 ELSE 44
Channels(mono) == IF mono THEN 1 ELSE 3
Picked(s, num, stride, channels) ==
  [i \in 1..num * channels |-> s[((i - 1) \div channels) * stride + ((i - 1) % channels) + 1]]
--------------------------------------------------------------------------------
NewWriter ==
  /\ IsEvent("writer")
  /\ Ev.good /\ Ev.mono = Ev.mono_given /\ Ev.width = Ev.width_given /\ Ev.height = Ev.height_given
  /\ objs' = Put(objs, Ev.o, [mono |-> Ev.mono, width |-> Ev.width, height |-> Ev.height, max |-> Ev.max, p |-> Ev.p, s |-> <<>>])
  /\ Consume
Write ==
  /\ IsEvent("write")
  /\ Ev.good
  /\ objs' = [objs EXCEPT ![Ev.o].s = @ \o Vs(Picked(Ev.buf, Ev.num, Ev.stride, Channels(objs[Ev.o].mono)))]
  /\ Consume
\* code is nearest to the encoded x
Quantized(code, x, max, p) ==
  /\ code \in 0..max
  /\ BAbs(R(code) -- (max ** Encoded(x))) \preceq HalfR ++ (max ** Shl(1, F - CurveBits(p)))
File ==
  /\ IsEvent("file") \/ IsEvent("stream")   \* of a pipe, in the end
  /\ Ok(LET o == objs[Ev.o]
            h == Parse(Ev.bytes)
        IN /\ h.ok
           /\ h.mono = o.mono /\ BEq(h.width, o.width) /\ BEq(h.height, o.height) /\ BEq(h.max, o.max)
           /\ Len(Ev.bytes) = h.data - 1 + Len(o.s)
           /\ \A i \in 1..Len(o.s) : Quantized(Ev.bytes[h.data + i - 1], o.s[i], o.max, o.p))
  /\ UNCHANGED objs
  /\ Consume
--------------------------------------------------------------------------------
\* A reader on a well-formed file
NewReader ==
  /\ IsEvent("reader")
  /\ \E h \in {Parse(Ev.bytes)} :
       /\ h.ok /\ Ev.good
       /\ Ev.mono = h.mono /\ BEq(Ev.width, h.width) /\ BEq(Ev.height, h.height)
       /\ objs' = Put(objs, Ev.o, [b |-> SubSeq(Ev.bytes, h.data, Len(Ev.bytes)), mono |-> h.mono, max |-> ToInt(h.max),
                                    pos |-> 0, good |-> TRUE, p |-> Ev.p])
  /\ Consume
Decoded(str, code, max, p) ==
  LET e == Linear(code, max) IN Near(V(str), e, Shr(e, CurveBits(p)))
Read ==
  /\ IsEvent("read")
  /\ LET o == objs[Ev.o]
         ch == Channels(o.mono)
         avail == Len(o.b) \div ch
         ok == o.good /\ (Ev.num = 0 \/ o.pos + Ev.num <= avail)
         whole == IF ~o.good THEN 0 ELSE IF o.pos + Ev.num <= avail THEN Ev.num ELSE avail - o.pos
     IN
     /\ Ev.good = ok
     /\ Ok(LET got == Picked(Ev.buf, whole, Ev.stride, ch) IN
           /\ \A i \in 1..Len(Ev.buf) :
                ((i - 1) % Ev.stride >= ch \/ (i - 1) \div Ev.stride >= Ev.num) => Ev.buf[i] = "-"
           /\ \A i \in 1..whole * ch : got[i] # "-" /\ Decoded(got[i], o.b[o.pos * ch + i], o.max, o.p))
     /\ objs' = [objs EXCEPT ![Ev.o].good = ok, ![Ev.o].pos = IF @ + Ev.num <= avail THEN @ + Ev.num ELSE avail]
  /\ Consume
\* Codes read and written again
Again ==
  /\ IsEvent("again")
  /\ Ev.out = Ev.in
  /\ UNCHANGED objs
  /\ Consume
\* A writer which could not create its file
Nowhere ==
  /\ IsEvent("nowhere")
  /\ ~Ev.good /\ ~Ev.later
  /\ UNCHANGED objs
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == NewWriter \/ Write \/ File \/ NewReader \/ Read \/ Again \/ Nowhere
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
