SPECIFICATION Spec
CONSTANTS N = 7 Values = {1, 2, 3} Short = 4
INVARIANTS Correct Partitioning Shrinks
PROPERTY Terminates
CHECK_DEADLOCK FALSE
