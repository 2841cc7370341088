CONSTANT Top = 128
SPECIFICATION Spec
INVARIANTS Right Folded
CHECK_DEADLOCK FALSE
