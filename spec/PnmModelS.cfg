SPECIFICATION Spec
CONSTANTS Alphabet = {32, 10, 35, 49} Longest = 11
INVARIANTS Agrees
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
