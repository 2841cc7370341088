---------------------------------- MODULE Delay --------------------------------
(* The delay line (delay.hh): each call returns the oldest sample of the window *)
(* before the call.                                                             *)
EXTENDS Window
CONSTANTS Len0, Values, Init0
VARIABLES w, out
Out(win) == Head(win)
Init == w = Initial(Len0, Init0) /\ out = Init0
Next == \E v \in Values : out' = Out(w) /\ w' = Slide(w, v)
Spec == Init /\ [][Next]_<<w, out>>
=============================================================================
