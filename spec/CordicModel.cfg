CONSTANT Span = 16
SPECIFICATION Spec
INVARIANTS Grows Right
CHECK_DEADLOCK FALSE
