CONSTANT Top = 100
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
