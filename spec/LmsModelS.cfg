SPECIFICATION Spec
CONSTANTS
  Sizes = {2}
  Depth = 3
  Few = TRUE
VIEW View
INVARIANT Reproduces
PROPERTY Wrong
PROPERTY Stays
PROPERTY Nearer
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
