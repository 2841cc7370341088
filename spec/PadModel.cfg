CONSTANT Top = 9
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
