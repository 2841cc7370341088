------------------------------ MODULE ComplexModel -----------------------------
(* Programs of compound assignments on two complex variables, the way the code  *)
(* carries them out: the operand is passed by value, and a sum, a product or a  *)
(* multiple is computed with exchanged operands and assigned as a whole.        *)
(* Values are Gaussian integers.  The result of each step is compared with the  *)
(* plain operation, and the programs are printed to be run on the real code.    *)
EXTENDS Cplx, TLC, Json
CONSTANTS Limit, Depth
Values == {-2, 0, 3}
VARIABLES x, hist
vars == <<x, hist>>
\* Formulas of the operators as written in the code
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Times(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Multiple(s, b) == <<s * b[1], s * b[2]>>

Names == <<"add", "sub", "mul">>
Compound(op, this, a) ==
  CASE op = "add" -> Plus(a, this)
    [] op = "sub" -> Minus(this, a)
    [] op = "mul" -> Times(a, this)
Plain(op, u, v) ==
  CASE op = "add" -> CAdd(u, v)
    [] op = "sub" -> CSub(u, v)
    [] op = "mul" -> CMul(u, v)
Small(a) == BAbs(a[1]) <= Limit /\ BAbs(a[2]) <= Limit

Init == x = << <<1, 2>>, <<-3, 1>> >> /\ hist = <<>>
Assign(d, v, call) == Small(v) /\ x' = [x EXCEPT ![d] = v] /\ hist' = Append(hist, call)
\* calls: the operation and 10*(destination) + source, or a number
Next ==
  \/ \E op \in {Names[i] : i \in 1..3}, d \in 1..2, s \in 1..2 :
       Assign(d, Compound(op, x[d], x[s]), <<op, 10 * d + s>>)
  \/ \E k \in Values, d \in 1..2 :
       \/ Assign(d, Multiple(k, x[d]), <<"mulr" \o ToString(d), k>>)
       \/ Assign(d, <<k, 0>>, <<"set" \o ToString(d), k>>)
       \/ Assign(d, <<k, x[d][2]>>, <<"re" \o ToString(d), k>>)
       \/ Assign(d, <<x[d][1], k>>, <<"im" \o ToString(d), k>>)
  \/ \E d \in 1..2 :
       \/ Assign(d, CConj(x[d]), <<"conj", d>>)
       \/ Assign(d, CNeg(x[d]), <<"neg", d>>)
Spec == Init /\ [][Next]_vars
Bound == Len(hist) < Depth
View == x

\* Each compound assignment is the plain operation
Right == \A op \in {"add", "sub", "mul"}, d \in 1..2, s \in 1..2 :
           CEq(Compound(op, x[d], x[s]), Plain(op, x[d], x[s]))
\* The field: commutative, distributive; conjugation and squared magnitude are multiplicative,
\* and the quotient formula of the code undoes the product
Field ==
  LET a == x[1]
      b == x[2]
  IN /\ Times(a, b) = Times(b, a)
     /\ Times(a, Plus(a, b)) = Plus(Times(a, a), Times(a, b))
     /\ CConj(Times(a, b)) = Times(CConj(a), CConj(b))
     /\ CNorm(Times(a, b)) = CNorm(a) * CNorm(b)
     /\ LET q == Times(a, b)                        \* q / b = a, both over the norm of b
            num == <<q[1] * b[1] + q[2] * b[2], q[2] * b[1] - q[1] * b[2]>>
        IN num = Multiple(CNorm(b), a)
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
