SPECIFICATION Spec
CONSTANTS
  Qs = {4, 7}
  Depth = 5
  MaxTaps = 5
  MaxSamples = 5
  Few = TRUE
VIEW View
INVARIANTS Follows Close AtMostTwo Times BlockRight
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
