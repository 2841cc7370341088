SPECIFICATION Spec
CONSTANTS Len0 = 4 Values = {1, 2} Init0 = 0
INVARIANTS TypeOK
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
