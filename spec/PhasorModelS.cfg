CONSTANTS Depth = 12
SPECIFICATION Spec
INVARIANTS Right
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
