CONSTANTS Depth = 40
SPECIFICATION Spec
INVARIANTS Right
PROPERTIES Continuous Kept
CHECK_DEADLOCK FALSE
VIEW View
