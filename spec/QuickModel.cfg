SPECIFICATION Spec
CONSTANTS N = 6 Values = {1, 2, 3} Short = 4
INVARIANTS Correct Partitioning Shrinks
PROPERTY Terminates
CHECK_DEADLOCK FALSE
