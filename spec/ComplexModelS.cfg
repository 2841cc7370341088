CONSTANTS Limit = 100
          Depth = 3
SPECIFICATION Spec
INVARIANTS Right Field
ACTION_CONSTRAINT Emit
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
