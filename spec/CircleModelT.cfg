CONSTANT Top = 300
SPECIFICATION Spec
INVARIANTS Identity Reduced Accurate
CHECK_DEADLOCK FALSE
