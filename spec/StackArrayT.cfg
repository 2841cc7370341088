SPECIFICATION Spec
CONSTANTS Cap = 6 Values = {1, 2}
INVARIANTS ObserversAgree
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
