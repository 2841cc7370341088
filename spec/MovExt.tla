--------------------------------- MODULE MovExt --------------------------------
(* The moving minimum: the smallest of the last N samples, or of all of them    *)
(* while there are fewer.  (The maximum is the minimum with the order turned.)  *)
EXTENDS Integers, Sequences
Recent(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s
Smallest(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : m <= s[i]
=============================================================================
