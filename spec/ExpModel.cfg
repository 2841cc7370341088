CONSTANTS Top = 1023
 Levels = 100
SPECIFICATION Spec
INVARIANTS PowerOfTwo Tens Dbs
CHECK_DEADLOCK FALSE
