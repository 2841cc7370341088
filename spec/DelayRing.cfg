SPECIFICATION Spec
CONSTANTS Len0 = 4 Values = {1, 2} Init0 = 0
INVARIANTS TypeOK
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
