CONSTANT Top = 360
SPECIFICATION Spec
INVARIANTS Right Folded
CHECK_DEADLOCK FALSE
