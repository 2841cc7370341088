CONSTANTS
  Threads = {1, 2, 3}
  Inputs = {1}
  Calls = 2
  Designs = {"sound"}
SPECIFICATION Spec
INVARIANTS SoundFits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
