------------------------------ MODULE PhasorModel ------------------------------
(* The oscillator as the code has it, with rotations by quarter turns, which    *)
(* need no rounding: prev is returned and then multiplied by delta.  The phase  *)
(* counts quarter turns.                                                        *)
EXTENDS Cplx, TLC, Json
CONSTANTS Depth
VARIABLES prev, delta, phase, step, out, hist
vars == <<prev, delta, phase, step, out, hist>>
Unit(q) == CASE q = 0 -> <<1, 0>> [] q = 1 -> <<0, 1>> [] q = 2 -> <<-1, 0>> [] q = 3 -> <<0, -1>>
Init == prev = <<1, 0>> /\ delta = <<1, 0>> /\ phase = 0 /\ step = 0 /\ out = 0 /\ hist = <<>>
Log(c) == Len(hist) < Depth /\ hist' = Append(hist, c)
Next ==
  \/ \E q \in -3..4 : delta' = Unit(q % 4) /\ step' = q % 4 /\ Log(<<"turn", q>>) /\ UNCHANGED <<prev, phase, out>>
  \/ prev' = <<1, 0>> /\ phase' = 0 /\ Log(<<"reset", 0>>) /\ UNCHANGED <<delta, step, out>>
  \/ /\ out' = prev /\ prev' = CMul(prev, delta) /\ phase' = (phase + step) % 4
     /\ Log(<<"call", 0>>) /\ UNCHANGED <<delta, step>>
Spec == Init /\ [][Next]_vars
Right == prev = Unit(phase) /\ delta = Unit(step)
Continuous == [][step' # step => prev' = prev]_vars
Kept == [][phase' = 0 /\ hist'[Len(hist')][1] = "reset" => delta' = delta]_vars
View == <<prev, delta, out, IF hist = <<>> THEN "" ELSE hist[Len(hist)][1]>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
