SPECIFICATION Spec
CONSTANTS Alphabet = {32, 10, 35, 49, 120} Longest = 12
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
