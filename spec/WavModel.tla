-------------------------------- MODULE WavModel -------------------------------
(* A WAV writer and then a reader as state machines, byte by byte: the writer   *)
(* puts a header of unknown length, the data, and completes the header when it  *)
(* is finished; the reader parses and reads or skips frames.  TLC checks over   *)
(* all short runs that the finished file is well-formed with the right number   *)
(* of frames, that it is well-formed with unknown length before, and when the   *)
(* reader stops being good.                                                     *)
EXTENDS Wav, TLC, Json
CONSTANTS Most, Chunks
VARIABLES bits, channels, rate,
          file,        \* the bytes
          frames,      \* written so far
          open,        \* still being written
          pos, good,   \* the reader, in frames
          hist
vars == <<bits, channels, rate, file, frames, open, pos, good, hist>>
Le(v, n) == [i \in 1..n |-> ToInt(Shr(v, 8 * (i - 1)) %% 256)]
BytesPer == bits \div 8
Header(sizes, fact, data) ==
  RIFF \o Le(sizes, 4) \o WAVE \o FMT \o Le(IF bits = 32 THEN 18 ELSE 16, 4) \o Le(IF bits = 32 THEN 3 ELSE 1, 2)
  \o Le(channels, 2) \o Le(rate, 4) \o Le(rate * channels * BytesPer, 4) \o Le(channels * BytesPer, 2) \o Le(bits, 2)
  \o (IF bits = 32 THEN Le(0, 2) \o FACT \o Le(4, 4) \o Le(fact, 4) ELSE <<>>) \o DATA \o Le(data, 4)
HeadLen == IF bits = 32 THEN 58 ELSE 44
Init ==
  /\ bits \in {8, 16, 32} /\ channels \in 1..2 /\ rate \in {1, 8000, 44100}
  /\ file = Header(IF bits = 32 THEN 50 ELSE 36, 0, -1)
  /\ frames = 0 /\ open = TRUE /\ pos = 0 /\ good = FALSE /\ hist = <<>>
Frame == [i \in 1..channels * BytesPer |-> i % 256]
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Write(n) ==
  /\ open /\ frames + n <= Most
  /\ file' = file \o Times(Frame, n) /\ frames' = frames + n
  /\ UNCHANGED <<bits, channels, rate, open, pos, good, hist>>
Finish ==
  /\ open
  /\ open' = FALSE
  /\ file' = LET size == Len(file) - HeadLen IN
             Header(Len(file) - 8, size \div (BytesPer * channels), size) \o SubSeq(file, HeadLen + 1, Len(file))
  /\ pos' = 0 /\ good' = TRUE
  /\ UNCHANGED <<bits, channels, rate, frames, hist>>
Read(n) ==
  /\ ~open
  /\ good' = (good /\ (n = 0 \/ pos + n <= frames))
  /\ pos' = IF n = 0 THEN pos ELSE IF pos + n <= frames THEN pos + n ELSE IF pos > frames THEN pos ELSE frames
  /\ hist' = Append(hist, <<"read", n>>)
  /\ UNCHANGED <<bits, channels, rate, file, frames, open>>
Skip(n) ==
  /\ ~open
  /\ pos + n <= Most + 1
  /\ pos' = IF good THEN pos + n ELSE pos
  /\ hist' = Append(hist, <<"skip", n>>)
  /\ UNCHANGED <<bits, channels, rate, file, frames, open, good>>
Next == (\E n \in Chunks : Write(n) \/ Read(n) \/ Skip(n)) \/ Finish
Spec == Init /\ [][Next]_vars
AlwaysWellFormed == WellFormed(file)
UnknownWhileOpen == open => Frames(file) = -1
RightFrames == ~open /\ frames > 0 => BEq(Frames(file), frames)
DataRight == SubSeq(file, HeadLen + 1, Len(file)) = Times(Frame, frames)
FieldsRight == Channels(file) = channels /\ BEq(Rate(file), rate) /\ Bits(file) = bits
View == <<bits, channels, rate, file, frames, open, pos, good>>
Emit == bits' = 16 /\ channels' = 2 /\ rate' = 1 /\ frames' = Most /\ hist' # <<>> => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
