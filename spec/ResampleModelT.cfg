SPECIFICATION Spec
CONSTANTS
  Qs = {2, 4, 5, 8, 9, 16, 21}
  Depth = 9
  MaxTaps = 9
  MaxSamples = 24
  Few = FALSE
VIEW View
INVARIANTS Follows Close AtMostTwo Times BlockRight
CHECK_DEADLOCK FALSE
