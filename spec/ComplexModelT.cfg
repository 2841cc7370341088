CONSTANTS Limit = 40
          Depth = 6
SPECIFICATION Spec
INVARIANTS Right Field
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
