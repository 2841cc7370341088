SPECIFICATION Spec
CONSTANTS Cap = 5
          Values = {1, 2}
INVARIANTS ObserversAgree RingConsistent
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
