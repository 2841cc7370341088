-------------------------------- MODULE TraceWav -------------------------------
(* Validates traces recorded from wav.hh: the writer against the bytes of its   *)
(* file, the reader against the bytes it was given.                             *)
EXTENDS TraceBase, Wav
VARIABLE objs
K == 200
\* Elements c of frames 0..num-1 of a buffer with a stride
Picked(s, num, stride, channels) ==
  [i \in 1..num * channels |-> s[((i - 1) \div channels) * stride + ((i - 1) % channels) + 1]]
--------------------------------------------------------------------------------
\* p: precision of the type of the samples
NewWriter ==
  /\ IsEvent("writer")
  /\ Ev.good
  /\ Ev.rate = Ev.rate_given /\ Ev.channels = Ev.channels_given
  /\ objs' = Put(objs, Ev.o, [bits |-> Ev.bits, rate |-> Ev.rate, channels |-> Ev.channels, p |-> Ev.p, s |-> <<>>, n |-> 0])
  /\ Consume
Write ==
  /\ IsEvent("write")
  /\ Ev.good
  /\ objs' = [objs EXCEPT ![Ev.o].s = @ \o FltSeqAt(Picked(Ev.buf, Ev.num, Ev.stride, objs[Ev.o].channels), K)]
  /\ Consume
Silence ==
  /\ IsEvent("silence")
  /\ Ev.good
  /\ objs' = [objs EXCEPT ![Ev.o].s = @ \o [i \in 1..Ev.num * objs[Ev.o].channels |-> 0]]
  /\ Consume
\* The samples buf were written many times, and only counted
WriteBulk ==
  /\ IsEvent("writes")
  /\ Ev.good
  /\ objs' = [objs EXCEPT ![Ev.o].n = @ + Ev.num * Ev.times]
  /\ Consume
\* A header with the writer's parameters
OwnHeader(o, b) ==
  /\ WellFormed(b)
  /\ Bits(b) = o.bits /\ Channels(b) = o.channels /\ BEq(Rate(b), o.rate)
Holds(o, b) ==
  LET bytes == o.bits \div 8
      at(i) == Overhead(b) + (i - 1) * bytes + 1 IN
  \A i \in 1..Len(o.s) :
     IF o.bits = 32
     THEN BAbs(Float32(b, at(i), K) -- o.s[i]) \preceq (IF o.p = 24 THEN 0 ELSE Shr(BAbs(o.s[i]), 24))
     ELSE Quantized(Code(b, at(i), o.bits), o.s[i], o.bits, K,
                    Shr(4 ** (BAbs(Full(o.bits) ** o.s[i]) ++ Shl(Mid(o.bits), K)), o.p))
\* The file after the writer was destroyed
File ==
  /\ IsEvent("file")
  /\ Ok(LET o == objs[Ev.o]
            b == Ev.bytes
            size == Len(o.s) * (o.bits \div 8)
        IN /\ OwnHeader(o, b)
           /\ BEq(DataSize(b), size)
           /\ BEq(ChunkSize(b), Overhead(b) + size - 8)
           /\ o.bits = 32 => BEq(FactFrames(b), Len(o.s) \div o.channels)
           /\ Len(b) = Overhead(b) + size
           /\ Holds(o, b))
  /\ UNCHANGED objs
  /\ Consume
\* Of a longer file: its length and its first bytes
LongFile ==
  /\ IsEvent("longfile")
  /\ Ok(LET o == objs[Ev.o]
            b == Ev.head
            size == o.n * o.channels * (o.bits \div 8)
        IN /\ OwnHeader(o, b)
           /\ BEq(DataSize(b), size)
           /\ BEq(ChunkSize(b), Overhead(b) + size - 8)
           /\ o.bits = 32 => BEq(FactFrames(b), o.n)
           /\ Ev.length = Overhead(b) + size)
  /\ UNCHANGED objs
  /\ Consume
\* First bytes of a file being written
OpenFile ==
  /\ IsEvent("openfile")
  /\ Ok(OwnHeader(objs[Ev.o], Ev.head) /\ ~KnownSize(Ev.head))
  /\ UNCHANGED objs
  /\ Consume
\* What came out of a pipe so far, or in the end: the header of a recording of unknown
\* length, and the samples
Stream ==
  /\ IsEvent("stream")
  /\ Ok(LET o == objs[Ev.o]
            b == Ev.bytes
            have == (Len(b) - Overhead(b)) \div (o.bits \div 8)      \* if there is a header
        IN /\ Ev.ended => Len(b) >= 44 /\ Len(b) = Overhead(b) + Len(o.s) * (o.bits \div 8)
           /\ IF Len(b) < 58 THEN TRUE
              ELSE /\ OwnHeader(o, b) /\ ~KnownSize(b)
                   /\ have <= Len(o.s)
                   /\ Holds([o EXCEPT !.s = SubSeq(@, 1, have)], b)
           /\ Ev.ended => OwnHeader(o, b) /\ ~KnownSize(b) /\ Holds(o, b))
  /\ UNCHANGED objs
  /\ Consume
--------------------------------------------------------------------------------
\* A reader on a file of these bytes.  data: bytes behind the header
NewReader ==
  /\ IsEvent("reader")
  /\ Ok(LET b == Ev.bytes IN
        /\ WellFormed(b)             \* the harness gives well-formed files only
        /\ Ev.good
        /\ Ev.rate = ToInt(Rate(b)) /\ Ev.channels = Channels(b) /\ Ev.bits = Bits(b)
        /\ BEq(Ev.frames, Frames(b)))
  /\ objs' = Put(objs, Ev.o, [b |-> Ev.bytes, pos |-> 0, good |-> TRUE, p |-> Ev.p])
  /\ Consume
Available(o) == (Len(o.b) - Overhead(o.b)) \div BlockAlign(o.b)
\* buf: the buffer after reading; elements left alone are recorded as "-"
Read ==
  /\ IsEvent("read")
  /\ LET o == objs[Ev.o]
         avail == Available(o)
         ok == o.good /\ (Ev.num = 0 \/ o.pos + Ev.num <= avail)
         whole == IF ~o.good \/ o.pos >= avail THEN 0 ELSE IF o.pos + Ev.num <= avail THEN Ev.num ELSE avail - o.pos
     IN
     /\ Ev.good = ok
     /\ Ok(LET ch == Channels(o.b)
               bits == Bits(o.b)
               at(i) == Overhead(o.b) + (o.pos * ch + i - 1) * (bits \div 8) + 1
               got == Picked(Ev.buf, whole, Ev.stride, ch)
           IN /\ \A i \in 1..Len(Ev.buf) :
                   ((i - 1) % Ev.stride >= ch \/ (i - 1) \div Ev.stride >= Ev.num) => Ev.buf[i] = "-"
              /\ \A i \in 1..whole * ch :
                   /\ got[i] # "-"
                   /\ IF bits = 32 THEN BEq(FltAt(got[i], K), Float32(o.b, at(i), K))
                      ELSE LET c == Code(o.b, at(i), bits) - Mid(bits) IN
                           BAbs((Full(bits) ** FltAt(got[i], K)) -- Shl(c, K)) \preceq Shr(Shl(2 * BAbs(c), K), o.p) ++ 65536)
     /\ objs' = [objs EXCEPT ![Ev.o].good = ok,
                             ![Ev.o].pos = IF Ev.num = 0 THEN @ ELSE IF @ + Ev.num <= avail THEN @ + Ev.num ELSE IF @ > avail THEN @ ELSE avail]
  /\ Consume
Skip ==
  /\ IsEvent("skip")
  /\ Ev.good = objs[Ev.o].good
  /\ objs' = [objs EXCEPT ![Ev.o].pos = @ + Ev.num]
  /\ Consume
\* Read back what was written: same samples as those of a writer, quantized
ReadBack ==
  /\ IsEvent("back")
  /\ Ok(LET o == objs[Ev.o]
            g == FltSeqAt(Ev.got, K)
            half == Shl(1, K) // (2 * Full(o.bits))
            lim(x) == IF o.bits = 32 THEN x
                      ELSE BMin(BMax(x, Shl(Lowest(o.bits) - Mid(o.bits), K) // Full(o.bits)), Shl(Highest(o.bits) - Mid(o.bits), K) // Full(o.bits))
        IN /\ Len(g) = Len(o.s)
           /\ \A i \in 1..Len(g) :
                BAbs(g[i] -- lim(o.s[i])) \preceq
                  IF o.bits = 32 THEN Shr(BAbs(o.s[i]), 24) ELSE half ++ Shr(Shl(4, K), o.p))
  /\ UNCHANGED objs
  /\ Consume
\* A writer which could not create its file
Nowhere ==
  /\ IsEvent("nowhere")
  /\ ~Ev.good /\ ~Ev.later
  /\ UNCHANGED objs
  /\ Consume
\* What the interface says by default: the number of frames is unknown, and no
\* stride is a negative one
Source ==
  /\ IsEvent("source")
  /\ Ev.frames = -1 /\ Ev.packed
  /\ UNCHANGED objs
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == NewWriter \/ Write \/ Silence \/ WriteBulk \/ File \/ LongFile \/ OpenFile \/ Stream \/ NewReader \/ Read \/ Skip \/ ReadBack \/ Nowhere \/ Source
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
