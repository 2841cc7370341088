------------------------------- MODULE Isolation -------------------------------
(* Objects that keep to themselves: what one returns depends only on its own    *)
(* history, that is how it was made, the calls it got, and, where it is a copy, *)
(* the history of the original up to the copying.                               *)
(*                                                                              *)
(* All histories seen so far form a tree.  Each object is at one of its nodes,  *)
(* and each edge carries an input and the output that belongs to it: a history  *)
(* seen before has to yield the output it yielded before, a new one grows the   *)
(* tree.  Nothing has to be known about what the outputs mean.                  *)
EXTENDS Naturals, FiniteSets, TLC
Root == 0
NoTree == <<>>
Seen(tree, node, x) == <<node, x>> \in DOMAIN tree
\* The output y belongs to the input x at this node, as far as it is known
Fits(tree, node, x, y) == Seen(tree, node, x) => tree[<<node, x>>].y = y
Grown(tree, node, x, y) ==
  IF Seen(tree, node, x) THEN tree ELSE (<<node, x>> :> [to |-> Cardinality(DOMAIN tree) + 1, y |-> y]) @@ tree
After(tree, node, x) == tree[<<node, x>>].to
=============================================================================
