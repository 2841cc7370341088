CONSTANT Top = 24
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
