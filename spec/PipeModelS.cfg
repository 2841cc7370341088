CONSTANTS
  Header = 2
  Frame = 2
  MaxBytes = 7
  Caps = {2}
  Portions = {1, 2, 3}
  Requests = {1, 2}
  Designs = {"stream"}
SPECIFICATION Spec
INVARIANTS InOrder Served
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
