SPECIFICATION Spec
CONSTANTS
  Qs = {2, 4, 5, 8, 9}
  Depth = 6
  MaxTaps = 5
  MaxSamples = 14
  Few = FALSE
VIEW View
INVARIANTS Follows Close AtMostTwo Times BlockRight
CHECK_DEADLOCK FALSE
