SPECIFICATION Spec
CONSTANTS P = 3 Max = 14 Len0 = 6
INVARIANTS Bound ZeroChangesNothing
CHECK_DEADLOCK FALSE
