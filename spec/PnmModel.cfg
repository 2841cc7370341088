SPECIFICATION Spec
CONSTANTS Alphabet = {32, 10, 35, 49, 120} Longest = 10
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
