-------------------------------- MODULE PnmModel -------------------------------
(* The header parser of netpbm.hh as a state machine reading one character at a *)
(* time, compared with the grammar of Pnm.tla on every string over a small      *)
(* alphabet, character by character.                                            *)
EXTENDS Pnm, TLC, Json
CONSTANTS Alphabet, Longest
VARIABLES s,          \* what was read so far
          pc,         \* state of the machine
          field,      \* number of the field
          fresh       \* the last character was a newline
vars == <<s, pc, field, fresh>>
Init == s = <<80, 53>> /\ pc = "magic" /\ field = 0 /\ fresh = FALSE
\* magic: behind the kind; blank: between fields; comment; digits; done; bad
Step(c) ==
  CASE pc = "magic" -> IF Blank(c) THEN <<"blank", 0, c = NL>> ELSE <<"bad", 0, FALSE>>
    [] pc = "blank" ->
         IF c = 35 /\ fresh THEN <<"comment", field, FALSE>>
         ELSE IF Blank(c) THEN <<"blank", field, c = NL>>
         ELSE IF Digit(c) THEN <<"digits", field + 1, FALSE>> ELSE <<"bad", field, FALSE>>
    [] pc = "comment" -> IF c = NL THEN <<"blank", field, TRUE>> ELSE <<"comment", field, FALSE>>
    [] pc = "digits" ->
         IF Digit(c) THEN <<"digits", field, FALSE>>
         ELSE IF Blank(c) THEN IF field = 3 THEN <<"done", 3, FALSE>> ELSE <<"blank", field, c = NL>>
         ELSE <<"bad", field, FALSE>>
Next ==
  /\ pc \notin {"done", "bad"} /\ Len(s) < Longest
  /\ \E c \in Alphabet :
       LET r == Step(c) IN s' = Append(s, c) /\ pc' = r[1] /\ field' = r[2] /\ fresh' = r[3]
Spec == Init /\ [][Next]_vars
Agrees == Parse(s).ok = (pc = "done")
Emit == pc' = "done" => PrintT("SCRIPT " \o ToJson([i \in 1..Len(s') |-> <<"c", s'[i]>>]))
=============================================================================
