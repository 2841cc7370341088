CONSTANTS
  Threads = {1, 2}
  Inputs = {1, 2}
  Calls = 2
  Designs = {"sound", "scratch", "cache", "lazy"}
SPECIFICATION Spec
INVARIANTS SoundFits SerialFits AlwaysRaces
POSTCONDITION OthersFail
VIEW View
CHECK_DEADLOCK FALSE
