CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS Within Rises Falls Between Level Silent
CHECK_DEADLOCK FALSE
