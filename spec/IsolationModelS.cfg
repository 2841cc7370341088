CONSTANTS
  Places = {1, 2, 3}
  Inits = {0}
  Inputs = {1}
  Depth = 9
  Designs = {"sound"}
SPECIFICATION Spec
INVARIANTS SoundFits
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
