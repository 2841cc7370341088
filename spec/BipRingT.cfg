SPECIFICATION Spec
CONSTANTS Len0 = 7 Values = {1, 2}
INVARIANTS ShowsWindow
VIEW View
CHECK_DEADLOCK FALSE
