CONSTANT Top = 40
SPECIFICATION Spec
INVARIANTS Identity Reduced Accurate
CHECK_DEADLOCK FALSE
