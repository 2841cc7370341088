---------------------------------- MODULE Demod --------------------------------
(* Demodulators of frequency and amplitude, computed with p significant bits.   *)
(* Values are integers over 2^F.                                                *)
EXTENDS Cplx
\* One over bandwidth times pi, or zero before the bandwidth is set
Scale(bw) == Div(One, Mul(Pi, bw))
\* Angle from a to b
Step(a, b) == LET w == CMul(b, CConj(a)) IN Angle(w[2], w[1])
\* r is the angle d times the scale; the two ends of the range are the same angle
FineStep(r, sc, d, tol) ==
  \/ Near(r, Mul(sc, d), Mul(sc, tol))
  \/ /\ Near(BAbs(d), Pi, tol)
     /\ Near(BAbs(r), Mul(sc, Pi), Mul(sc, tol))
\* Within the range of one turn
InRange(r, sc, p) == BAbs(r) \preceq Mul(sc, Pi ++ Relative(Pi, 8, p))
\* Part of b perpendicular to a, times the magnitude of a (twice the scale)
Cross(a, b) == (a[1] ** b[2]) -- (a[2] ** b[1])
CrossMag(a, b) == BAbs(a[1] ** b[2]) ++ BAbs(a[2] ** b[1])
\* over the squared magnitude of c
Ratio(x, c) == Quot(Shl(x, F), CNorm(c))
\* Fourth: from a to b
Fourth(sc, a, b) == Mul(sc, Ratio(Cross(a, b), b))
FourthErr(sc, a, b, p) == Relative(Mul(sc, Ratio(CrossMag(a, b), b)), 12, p) ++ 4
\* Fifth: samples a, b, c in order
Fifth(sc, a, b, c) == Mul(sc, Ratio(Shr(Cross(b, CSub(c, a)), 1), b))
FifthErr(sc, a, b, c, p) ==
  Relative(Mul(sc, Ratio(CrossMag(b, << BAbs(c[1]) ++ BAbs(a[1]), BAbs(c[2]) ++ BAbs(a[2]) >>), b)), 12, p) ++ 4

--------------------------------------------------------------------------------
\* The envelope: v is known to within e; factors, limits and index are what has been set, the
\* lower limit to within elo
Towards(v, a, f) == v ++ Mul(f, a -- v)
Envelope(o, a) ==
  LET ea == Relative(a, 4, o.p)
      f == IF a \prec o.v THEN o.dec ELSE o.att
      doubt == BAbs(a -- o.v) \preceq o.e ++ ea           \* about which of the factors it is
      v == Towards(o.v, a, f)
      e == (IF doubt THEN BMax(o.e, ea) ELSE Mul(One -- f, o.e) ++ Mul(f, ea)) ++ Relative(o.v ++ a, 4, o.p) ++ 4
  IN IF v ++ e \preceq o.lo THEN [v |-> o.lo, e |-> o.elo]
     ELSE IF v -- e \succeq o.hi THEN [v |-> o.hi, e |-> 0]
     ELSE [v |-> BMin(BMax(v, o.lo), o.hi), e |-> e ++ o.elo]
\* (m(1+i)-1)/i for m = a over the envelope n
Demodulated(a, n, i) == Div(Mul(Div(a, n.v), One ++ i) -- One, i)
DemodulatedErr(a, n, i, p) ==
  LET m == Div(Mul(Div(a, n.v), One ++ i), i)
  IN Relative(m, 16, p) ++ Mul(m, Div(2 ** n.e, n.v)) ++ Relative(Div(One, i), 8, p) ++ 4
Sound(n) == Shl(n.e, 3) \prec n.v
=============================================================================
