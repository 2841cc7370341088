SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3}
  Depth = 3
  Few = TRUE
VIEW View
INVARIANT Reproduces
PROPERTY Wrong
PROPERTY Stays
PROPERTY Nearer
CHECK_DEADLOCK FALSE
