CONSTANT Top = 12
SPECIFICATION Spec
INVARIANTS Sign Limited Linear Normal Cardinal
CHECK_DEADLOCK FALSE
