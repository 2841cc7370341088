------------------------------ MODULE BlockerModel -----------------------------
(* Consequences of the recurrences: a constant is blocked (the output shrinks   *)
(* by the leak from call to call, and with it to zero), the alternating signal  *)
(* passes with unit gain in the end, and a sine of constant amplitude leaves    *)
(* the normalizer with amplitude one whatever its amplitude and offset were.    *)
EXTENDS Blockers, TLC
CONSTANTS Counts, Amplitudes, Calls
VARIABLES s, a, t, x, y, m, out, old, i
vars == <<s, a, t, x, y, m, out, old, i>>
\* t: 0 constant, 1 alternating, 2 a sine of period 8 with an offset
Input(k) == CASE t = 0 -> R(a) [] t = 1 -> R(IF k % 2 = 0 THEN a ELSE 0 - a) [] t = 2 -> Mul(R(a), SinTurn(k, 8)) ++ R(3)
Init == s \in Counts /\ a \in Amplitudes /\ t \in 0..2 /\ x = 0 /\ y = 0 /\ m = HalfR /\ out = 0 /\ old = 0 /\ i = 0
Next ==
  /\ i < Calls /\ i' = i + 1
  /\ x' = Input(i) /\ y' = Blocked(s, x, y, x') /\ m' = Averaged(s, m, y') /\ old' = y
  /\ out' = IF m' \succ 0 THEN Normal(y', m') ELSE 0
  /\ UNCHANGED <<s, a, t>>
Spec == Init /\ [][Next]_vars
Tiny == Shl(1, F - 90)
Shrinks == t = 0 /\ i > 1 => Near(y, Mul(Leak(s), old), Tiny)
\* sum over outputs of a constant stays that of the geometric series
Starts == t = 0 /\ i = 1 => BEq(y, Mul(Gain(s), R(a)))
Passes == t = 1 /\ i = Calls => Near(BAbs(y), BAbs(R(a)), Frac(1, 100))
\* power of the normalized sine: at its peaks and nodes
Unity == t = 2 /\ i = Calls => BAbs(out) \preceq One ++ Frac(1, 4)
=============================================================================
