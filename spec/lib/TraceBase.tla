------------------------------- MODULE TraceBase -------------------------------
(* Common part of every trace specification.                                    *)
(*                                                                              *)
(* A trace is a file of JSON lines recorded from the real code by a harness:    *)
(* one line per call, with the arguments of the call and what it returned.      *)
(* The trace specifications EXTEND this module, define the meaning of each      *)
(* event with the operators of the component's specification, and consume one   *)
(* line per step.  A line which the specification does not allow has no         *)
(* successor; the trace is accepted iff every line was consumed.                *)
EXTENDS Big, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l            \* the line to be consumed next

Ev == Trace[l]
IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name
Consume == l' = l + 1
Has(key) == key \in DOMAIN Trace[l]

Accepted ==
  LET d == TLCGet("stats").diameter IN
  /\ PrintT(<<"MATCHED", d - 1, "OF", Len(Trace)>>)
  /\ d - 1 = Len(Trace)

\* TLC evaluates the argument as an expression, not as a part of the action: a
\* quantifier in it does not nest, and the LET definitions inside of it are
\* evaluated once
Ok(x) == x = TRUE

\* Function update that also adds the key
Put(f, k, v) == (k :> v) @@ f
=============================================================================
