SPECIFICATION Spec
CONSTANTS N = 6 Values = {1, 2, 3, 4, 5, 6} Short = 4
INVARIANTS Correct Partitioning Shrinks
CHECK_DEADLOCK FALSE
