-------------------------------- MODULE FmdModel -------------------------------
(* Three ways to the angle between consecutive samples agree, as the code has   *)
(* them: the difference of the angles brought back into one turn, the angle of  *)
(* the quotient, and the angle of the product with the conjugate.  For small    *)
(* steps of a carrier of constant magnitude the fourth and the fifth are that   *)
(* angle, too, up to its cube.                                                  *)
EXTENDS Demod, TLC
CONSTANTS Radius, Steps
VARIABLES a, b, k
vars == <<a, b, k>>
Points == { << x, y >> : x \in -Radius..Radius, y \in -Radius..Radius } \ { << 0, 0 >> }
Init == a \in Points /\ b \in Points /\ k \in Steps
Spec == Init /\ [][UNCHANGED vars]_vars
Tiny == Shl(1, F - 100)
WrapAround(d) == IF d \prec BNeg(Pi) THEN d ++ TwoPi ELSE IF d \succ Pi THEN d -- TwoPi ELSE d
Difference == WrapAround(Angle(b[2], b[1]) -- Angle(a[2], a[1]))
\* b/a over the norm of a
Quotient == LET w == << b[1] * a[1] + b[2] * a[2], b[2] * a[1] - b[1] * a[2] >> IN Angle(w[2], w[1])
AtEnd == Near(BAbs(Step(a, b)), Pi, Tiny)
Agree ==
  /\ Near(Difference, Step(a, b), Tiny) \/ (AtEnd /\ Near(BAbs(Difference), Pi, Tiny))
  /\ Near(Quotient, Step(a, b), Tiny)
\* Half of the bandwidth is the edge: a step of bw times pi gives one
Edge == Near(Mul(Scale(Frac(k, 100)), Mul(Pi, Frac(k, 100))), One, Tiny)
\* A carrier with k steps per turn
Carrier(i) == << CosTurn(i, 8 * k), SinTurn(i, 8 * k) >>
Cube == LET d == Quot(TwoPi, 8 * k) IN Mul(d, Sqr(d))
Small ==
  LET d == Quot(TwoPi, 8 * k) IN
  /\ Near(Step(Carrier(0), Carrier(1)), d, Tiny)
  /\ Near(Fourth(One, Carrier(0), Carrier(1)), d, Cube)
  /\ Near(Fifth(One, Carrier(0), Carrier(1), Carrier(2)), d, Cube)
=============================================================================
