-------------------------------- MODULE AmdModel -------------------------------
(* The envelope follower on all histories of a few magnitudes: it stays within  *)
(* its limits, rises by the attack and falls by the decay only, and never       *)
(* passes the magnitude; a magnitude equal to the envelope is demodulated to    *)
(* one.  Magnitudes are multiples of 1/8.                                       *)
EXTENDS Demod, TLC, Json
CONSTANTS Depth
Mags == {0, 1, 4, 6, 8, 12}
Rates == {0, 1, 4, 8}                                 \* eighths
VARIABLES o, a, old, hist
vars == <<o, a, old, hist>>
Eighth(k) == Frac(k, 8)
Init ==
  /\ \E att \in Rates, dec \in Rates :
       /\ o = [p |-> 100, v |-> 0, e |-> 0, att |-> Eighth(att), dec |-> Eighth(dec), lo |-> Eighth(1), elo |-> 0, hi |-> One, i |-> One]
       /\ hist = << <<"att", att>>, <<"dec", dec>> >>
  /\ a = 0 /\ old = 0
Next ==
  /\ Len(hist) < Depth + 2
  /\ \E m \in Mags :
       /\ a' = Eighth(m) /\ old' = o.v
       /\ \E n \in {Envelope([o EXCEPT !.e = 0], Eighth(m))} : o' = [o EXCEPT !.v = n.v]
       /\ hist' = Append(hist, <<"in", m>>)
Spec == Init /\ [][Next]_vars
Tiny == Shl(1, F - 90)
Moved == Len(hist) > 2
Within == Moved => o.lo \preceq o.v /\ o.v \preceq o.hi
Rises == Moved /\ a \succeq old => Near(o.v, BMin(BMax(old ++ Mul(o.att, a -- old), o.lo), o.hi), Tiny)
Falls == Moved /\ a \prec old => Near(o.v, BMin(BMax(old -- Mul(o.dec, old -- a), o.lo), o.hi), Tiny)
Between == Moved => o.v \preceq BMax(BMax(a, old), o.lo) ++ Tiny /\ BMin(BMin(a, old), o.hi) \preceq o.v ++ Tiny
Level == Moved => Near(Demodulated(o.v, [v |-> o.v, e |-> 0], o.i), One, Tiny)
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Silent == Near(Demodulated(0, [v |-> One, e |-> 0], One), BNeg(One), Tiny)
=============================================================================
