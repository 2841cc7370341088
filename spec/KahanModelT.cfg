SPECIFICATION Spec
CONSTANTS P = 4 Max = 30 Len0 = 7
INVARIANTS Bound ZeroChangesNothing
CHECK_DEADLOCK FALSE
