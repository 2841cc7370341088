CONSTANTS
  MaxData = 5
  Caps = {2}
  Limits = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Chunks = {1, 2, 3}
  Designs = {"sound"}
SPECIFICATION Spec
INVARIANTS PrefixKept Truthful
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
