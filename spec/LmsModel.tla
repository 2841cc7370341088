-------------------------------- MODULE LmsModel -------------------------------
(* The adaptive filter over a bip buffer, in exact arithmetic with fractions of *)
(* a common denominator, against what it is for: it predicts from the last N    *)
(* inputs, with unit step size it reproduces the desired value afterwards, and  *)
(* it never gets farther away from a filter that explains the desired value.    *)
EXTENDS Integers, Sequences, TLC, Json, Big
CONSTANTS Sizes, Depth, Few
VARIABLES N, buf, pos0, pos1, filt, den, past, err, last, hist
vars == <<N, buf, pos0, pos1, filt, den, past, err, last, hist>>
Inputs == { << 0, 0 >>, << -2, 0 >>, << 1, -1 >> } \cup (IF Few THEN {} ELSE { << 1, 0 >>, << 0, 1 >> })
Desired == { << 0, 0 >>, << -1, 2 >> } \cup (IF Few THEN {} ELSE { << 1, 0 >> })
Steps == IF Few THEN {1, 2} ELSE {0, 1, 2, 3}                   \* halves
Conj(a) == << a[1], 0 - a[2] >>
Add(a, b) == << a[1] + b[1], a[2] + b[2] >>
Mul(a, b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
Times(k, a) == << k*a[1], k*a[2] >>
Norm(a) == a[1]*a[1] + a[2]*a[2]
RECURSIVE CSum(_, _)
CSum(t, n) == IF n = 0 THEN << 0, 0 >> ELSE Add(t[n], CSum(t, n - 1))
Zeros == [i \in 1..N |-> << 0, 0 >>]
RECURSIVE ISum(_, _)
ISum(t, n) == IF n = 0 THEN 0 ELSE t[n] + ISum(t, n - 1)
Init ==
  /\ N \in Sizes
  /\ buf = [i \in 0..(2*N-1) |-> << 0, 0 >>] /\ pos0 = 0 /\ pos1 = N
  /\ filt = Zeros /\ den = 1 /\ past = Zeros /\ err = << 0, 0 >> /\ last = << >> /\ hist = << >>
\* for the replay, digits of base 16
Code(x, d, mu) == (x[1] + 8) + 16*(x[2] + 8) + 256*(d[1] + 8) + 4096*(d[2] + 8) + 65536*mu
Step(x, d, mu) ==
  LET b == [buf EXCEPT ![pos0] = Conj(x), ![pos1] = Conj(x)]
      p0 == (pos0 + 1) % (2*N)
      p1 == (pos1 + 1) % (2*N)
      from == IF p0 < p1 THEN p0 ELSE p1
      h == [i \in 1..N |-> b[from + i - 1]]
      estimate == CSum([i \in 1..N |-> Mul(Conj(filt[i]), h[i])], N)
      error == Conj(Add(Times(den, Conj(d)), Times(-1, estimate)))
      power == ISum([i \in 1..N |-> Norm(h[i])], N)
  IN /\ buf' = b /\ pos0' = p0 /\ pos1' = p1
     /\ err' = << error, den >>
     /\ IF power = 0 THEN UNCHANGED <<filt, den>>
        ELSE /\ den' = 2 * power * den
             /\ filt' = [i \in 1..N |-> Add(Times(2 * power, filt[i]), Times(mu, Mul(error, h[i])))]
     /\ past' = [i \in 1..N |-> IF i < N THEN past[i + 1] ELSE x]
     /\ last' = << x, d, mu >> /\ UNCHANGED N
     /\ hist' = Append(hist, << "step", Code(x, d, mu) >>)
Next == Len(hist) < Depth /\ \E x \in Inputs, d \in Desired, mu \in Steps : Step(x, d, mu)
Spec == Init /\ [][Next]_vars
View == <<N, buf, pos0, pos1, filt, den, past, err, last>>
Output(f, h) == CSum([i \in 1..N |-> Mul(f[i], h[i])], N)
\* The error is the desired value minus the prediction from the last inputs, now with this one
Wrong == [][err' = << Add(Times(den, last'[2]), Times(-1, Output(filt, past'))), den >>]_vars
Reproduces == (last # << >> /\ last[3] = 2 /\ \E i \in 1..N : past[i] # << 0, 0 >>) => Output(filt, past) = Times(den, last[2])
Stays == [][(\A i \in 1..N : past'[i] = << 0, 0 >>) => filt' = filt /\ den' = den]_vars
\* Distance from w, squared, times the square of D, of the coefficients f over E, where E divides D
Far(w, f, E, D) ==
  LET s == D \div E
      G(i) == LET v == Add(Times(D, w[i]), Times(0 - s, f[i])) IN (v[1] ** v[1]) ++ (v[2] ** v[2])
      RECURSIVE S(_)
      S(n) == IF n = 0 THEN 0 ELSE G(n) ++ S(n - 1)
  IN S(N)
Targets == [1..N -> { << 0, 0 >>, << 1, 0 >>, << 0, -1 >> }]
Nearer == [][\A w \in Targets : Output(w, past') = last'[2] => Far(w, filt', den', den') \preceq Far(w, filt, den, den')]_vars
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
