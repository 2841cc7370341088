-------------------------------- MODULE Phasors --------------------------------
(* The numerically controlled oscillator: a point on the unit circle that is    *)
(* returned and then rotated by the angle set last.  Computed with p            *)
(* significant bits, each call adds a few roundings to the phase.  Angles are   *)
(* in radians over 2^F.                                                         *)
EXTENDS Cplx
\* Angle of one call for a frequency given in one of three ways
Turns(n, N) == Quot(TwoPi ** n, N)
Cycles(v) == Mul(TwoPi, v)
\* Rounding errors of one call in units of 2^-p: cosine and sine, the product and the
\* normalization; and the conversion to radians, which is relative to the angle
StepErr(kind, a) == IF kind = "freq" THEN 8 + 2 * (ToInt(Shr(BAbs(a), F)) + 1) ELSE 8
\* The oscillator: the next value as the last one rotated, with the errors of one call; as the sum
\* of all angles, with the errors of all calls; and the angle per call
Started(p) == [p |-> p, next |-> <<One, 0>>, e |-> 0, phase |-> 0, err |-> 0, delta |-> 0, rot |-> <<One, 0>>, each |-> 8]
Restarted(o) == [o EXCEPT !.next = <<One, 0>>, !.e = 0, !.phase = 0, !.err = 0]
Tuned(o, a, e) == [o EXCEPT !.delta = a, !.each = e, !.rot = <<CosR(a), SinR(a)>>]
Rotated(z, c) == LET w == CMul(z, c) IN <<Shr(w[1], F), Shr(w[2], F)>>
Returned(o, z) ==
  [o EXCEPT !.next = Rotated(z, o.rot), !.e = o.each, !.phase = @ ++ o.delta, !.err = @ + o.each]
\* n calls nobody looked at
Passed(o, n) == [o EXCEPT !.phase = @ ++ (n ** o.delta), !.err = @ + n * o.each,
                          !.next = <<CosR(o.phase ++ (n ** o.delta)), SinR(o.phase ++ (n ** o.delta))>>, !.e = o.err + n * o.each]
Around(z, e, tol) == Near(z[1], e[1], tol) /\ Near(z[2], e[2], tol)
Normalized(z, p) == Near(CNorm(z), Shl(1, 2 * F), Shl(12, 2 * F - p))
Fits(o, z) ==
  /\ Normalized(z, o.p)
  /\ Around(z, o.next, Roundoffs(o.e, o.p))
  /\ Around(z, <<CosR(o.phase), SinR(o.phase)>>, Roundoffs(o.err, o.p))
=============================================================================
