CONSTANT Span = 1
SPECIFICATION Spec
INVARIANTS Grows Right
CHECK_DEADLOCK FALSE
