------------------------------ MODULE TraceComplex -----------------------------
(* Validates traces recorded from complex.hh.                                   *)
EXTENDS TraceBase, Cplx
\* p = 0: integers; otherwise floating-point numbers with p significant bits, all of them
\* multiples of 2^-k
Num(s, k) == IF Ev.p = 0 THEN s ELSE FltSeqAt(s, k)
Pair(s, i) == <<s[2*i-1], s[2*i]>>
\* Results over 2^k or, for products, over 2^(2k)
Sums == {"add", "sub", "neg", "pos", "conj", "setre", "setim", "real", "zero", "pair"}
Exact(op, a, b) ==
  CASE op = "add" -> CAdd(a, b)
    [] op = "sub" -> CSub(a, b)
    [] op = "neg" -> CNeg(a)
    [] op = "pos" -> a
    [] op = "conj" -> CConj(a)
    [] op = "setre" -> <<b[1], a[2]>>
    [] op = "setim" -> <<a[1], b[2]>>
    [] op = "real" -> <<a[1], 0>>
    [] op = "zero" -> <<0, 0>>
    [] op = "pair" -> <<a[1], b[2]>>
Products == {"mul", "scale"}
Product(op, a, b) == IF op = "mul" THEN CMul(a, b) ELSE CScale(a[1], b)
ProductMag(op, a, b) == IF op = "mul" THEN MulMag(a, b) ELSE CMag(CScale(a[1], b))
Quotients == {"div", "divr", "rdiv"}
\* r = num/den; the parts of num, and what is added up in them
Numerator(op, a, b) ==
  CASE op = "div" -> CMul(a, CConj(b))
    [] op = "divr" -> CScale(b[1], a)
    [] op = "rdiv" -> CScale(a[1], CConj(b))
NumeratorMag(op, a, b) ==
  CASE op = "div" -> MulMag(a, CConj(b))
    [] op = "divr" -> CMag(CScale(b[1], a))
    [] op = "rdiv" -> CMag(CScale(a[1], b))
Denominator(op, b) == IF op = "divr" THEN b[1] ** b[1] ELSE CNorm(b)

One1(op, a, b, r, r2, i) ==
  CASE op \in Sums -> CNear(Pair(r, i), Exact(op, Pair(a, i), Pair(b, i)), IF Ev.p = 0 THEN <<0, 0>> ELSE CMag(Exact(op, Pair(a, i), Pair(b, i))), 1, Ev.p)
    [] op \in Products ->
         IF Ev.p = 0 THEN CEq(Pair(r, i), Product(op, Pair(a, i), Pair(b, i)))
         ELSE CNear(Pair(r2, i), Product(op, Pair(a, i), Pair(b, i)), ProductMag(op, Pair(a, i), Pair(b, i)), 3, Ev.p)
    [] op \in Quotients ->
         LET d == Denominator(op, Pair(b, i)) IN
         CNear(CScale(d, Pair(r, i)), CShl(Numerator(op, Pair(a, i), Pair(b, i)), Ev.k),
               CShl(NumeratorMag(op, Pair(a, i), Pair(b, i)), Ev.k), 7, Ev.p)
Operation ==
  /\ IsEvent("op")
  /\ Ok(LET a == Num(Ev.a, Ev.k)
            b == Num(Ev.b, Ev.k)
            r == Num(Ev.r, Ev.k)
            r2 == Num(Ev.r, 2 * Ev.k)
        IN /\ Len(r) = Len(a) /\ Len(b) = Len(a)
           /\ \A i \in 1..(Len(a) \div 2) : One1(Ev.op, a, b, r, r2, i))
  /\ Consume
\* A compound assignment and its plain form: what is assigned, and what it returned
Compound ==
  /\ IsEvent("same")
  /\ Ok(LET a == Num(Ev.assigned, Ev.k)
            b == Num(Ev.returned, Ev.k)
        IN \A i \in 1..Len(a) : BEq(a[i], b[i]))
  /\ Consume
Equality ==
  /\ IsEvent("eq")
  /\ Ok(LET a == Num(Ev.a, Ev.k)
            b == Num(Ev.b, Ev.k)
        IN \A i \in 1..(Len(a) \div 2) :
             /\ (Ev.eq[i] = 1) <=> CEq(Pair(a, i), Pair(b, i))
             /\ (Ev.ne[i] = 1) <=> ~CEq(Pair(a, i), Pair(b, i)))
  /\ Consume
\* Squared magnitude, magnitude and argument of each
Polar ==
  /\ IsEvent("polar")
  /\ Ok(LET a == Num(Ev.a, Ev.k)
            n == Num(Ev.norm, 2 * Ev.k)
            m == FltSeqAt(Ev.abs, 2 * Ev.k)
            g == Vs(Ev.arg)
        IN \A i \in 1..(Len(a) \div 2) :
             LET z == Pair(a, i)
                 e == CNorm(z)
                 h == BSqrt(Shl(e, 2 * Ev.k))
                 w == Angle(z[2], z[1])
             IN /\ Near(n[i], e, Relative(e, 3, Ev.p))
                /\ Near(m[i], h, Relative(h, 4, Ev.p))
                /\ Near(g[i], w, Relative(w, 4, Ev.p) ++ Shl(1, F - 120)))
  /\ Consume
Norms ==                                              \* of integers
  /\ IsEvent("norm")
  /\ Ok(\A i \in 1..(Len(Ev.a) \div 2) : Ev.norm[i] = CNorm(Pair(Ev.a, i)))
  /\ Consume
\* From magnitude and angle
FromPolar ==
  /\ IsEvent("frompolar")
  /\ Ok(LET a == Vs(Ev.mag)
            t == Vs(Ev.ang)
            r == Vs(Ev.r)
        IN \A i \in 1..Len(a) : LET tol == Relative(a[i], 4, Ev.p) IN
             /\ Near(r[2*i-1], Mul(a[i], CosR(t[i])), tol)
             /\ Near(r[2*i], Mul(a[i], SinR(t[i])), tol))
  /\ Consume
\* A program on two variables: operation, destination, source or number for each step, and the
\* value of the destination afterwards
RECURSIVE Steps(_, _)
Steps(x, i) ==
  i > Len(Ev.ops) \/
  LET d == Ev.dst[i]
      k == Ev.arg[i]
      op == Ev.ops[i]
      v == CASE op = "add" -> CAdd(x[d], x[k])
             [] op = "sub" -> CSub(x[d], x[k])
             [] op = "mul" -> CMul(x[d], x[k])
             [] op = "mulr" -> CScale(k, x[d])
             [] op = "set" -> <<k, 0>>
             [] op = "re" -> <<k, x[d][2]>>
             [] op = "im" -> <<x[d][1], k>>
             [] op = "conj" -> CConj(x[d])
             [] op = "neg" -> CNeg(x[d])
  IN /\ CEq(<<Ev.re[i], Ev.im[i]>>, v)
     /\ Steps([x EXCEPT ![d] = v], i + 1)
Program ==
  /\ IsEvent("prog")
  /\ Ok(Steps(<< <<1, 2>>, <<-3, 1>> >>, 1))
  /\ Consume
Init == l = 1
Next == Operation \/ Compound \/ Equality \/ Polar \/ Norms \/ FromPolar \/ Program
Spec == Init /\ [][Next]_l
=============================================================================
