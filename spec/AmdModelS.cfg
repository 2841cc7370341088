CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS Within Rises Falls Between Level Silent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
