SPECIFICATION Spec
CONSTANTS Cap = 3 Values = {1, 2}
INVARIANTS ObserversAgree
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
