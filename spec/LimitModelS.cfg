SPECIFICATION Spec
CONSTANTS
  Caps = {4}
  Most = 6
  Xs = {1, 2, 4}
INVARIANTS Inside
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
