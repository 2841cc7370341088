CONSTANTS
  Places = {1, 2}
  Inits = {0, 1}
  Inputs = {1, 2}
  Depth = 7
  Designs = {"sound", "static", "stale", "shallow", "forgetful", "unassigned", "counting"}
SPECIFICATION Spec
INVARIANTS SoundFits
POSTCONDITION OthersFail
VIEW State
CHECK_DEADLOCK FALSE
