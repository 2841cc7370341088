----------------------------- MODULE TraceQuadrature ---------------------------
(* Validates traces recorded from hilbert.hh and cdc.hh.                        *)
EXTENDS TraceBase, Quadrature
VARIABLE objs         \* object -> [p, T, kind, h: its response backwards, g: magnitudes of it, u: units, past: the last T samples, m: samples so far]
New ==
  /\ IsEvent("new")
  /\ LET a == IF Has("a") THEN V(Ev.a) ELSE Two
         h == Backwards(IF Ev.kind = "hilbert" THEN Transformer(a, Ev.T) ELSE HalfBand(a, Ev.T))
     IN \E k \in {h} :
        objs' = Put(objs, Ev.o, [p |-> Ev.p, T |-> Ev.T, kind |-> Ev.kind, h |-> k, g |-> Absolute(k), c |-> Center(a, Ev.T),
                                 u |-> Units(a, Ev.T), past |-> [i \in 1..Ev.T |-> 0], m |-> 0])
  /\ Consume
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
All(o, x) == BSeq(o.past \o x)
Tol(o, mags, k) == Shr(mags[k] ** o.u, F + o.p) ++ 16
\* Result k comes before input k: it sees what had been there
HilbertOk(o, x, re, im) ==
  LET y == All(o, x)
      c == Convolve(o.h, y)
      g == Convolve(o.g, Absolute(y))
  IN \A k \in 1..Len(x) :
       /\ Near(Shr(c[k], F), im[k], Tol(o, g, k))
       /\ LET d == Mul(o.c, y[k + (o.T - 1) \div 2]) IN Near(re[k], d, Relative(d, o.u, o.p))
\* Result k comes after inputs 2k-1 and 2k
CdcOk(o, x, re, im) ==
  LET y == All(o, x)
      M(i) == o.m + i - 1 - o.T + 4 * o.T              \* number of sample i of y, modulo 4
      r == BSeq([i \in 1..Len(y) |-> RealPart(y[i], M(i))])
      q == BSeq([i \in 1..Len(y) |-> ImagPart(y[i], M(i))])
      cr == Convolve(o.h, r)
      ci == Convolve(o.h, q)
      gr == Convolve(o.g, Absolute(r))
      gi == Convolve(o.g, Absolute(q))
  IN \A k \in 1..Len(re) :
       /\ Near(Shr(cr[2*k + 1], F), re[k], Tol(o, gr, 2*k + 1))
       /\ Near(Shr(ci[2*k + 1], F), im[k], Tol(o, gi, 2*k + 1))
In ==
  /\ IsEvent("in")
  /\ LET o == objs[Ev.o] IN
     /\ Ok(LET x == Vs(Ev.x)
               re == Vs(Ev.re)
               im == Vs(Ev.im)
           IN IF o.kind = "hilbert" THEN Len(re) = Len(x) /\ HilbertOk(o, x, re, im)
              ELSE 2 * Len(re) = Len(x) /\ CdcOk(o, x, re, im))
     /\ objs' = [objs EXCEPT ![Ev.o].past = Last(All(o, Vs(Ev.x)), o.T), ![Ev.o].m = @ + Len(Ev.x)]
  /\ Consume
Init == l = 1 /\ objs = <<>>
Next == New \/ In
Spec == Init /\ [][Next]_<<l, objs>>
=============================================================================
