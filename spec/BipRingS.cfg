SPECIFICATION Spec
CONSTANTS Len0 = 3 Values = {1, 2}
INVARIANTS ShowsWindow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
