CONSTANTS
  Header = 2
  Frame = 2
  MaxBytes = 14
  Caps = {1, 2, 3, 4, 5, 8}
  Portions = {1, 2, 3, 4, 5, 7}
  Requests = {1, 2, 3}
  Designs = {"stream", "greedy"}
SPECIFICATION Spec
INVARIANTS InOrder NeverWaits Served
POSTCONDITION OthersFail
VIEW View
CHECK_DEADLOCK FALSE
