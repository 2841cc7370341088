SPECIFICATION Spec
INVARIANTS OnAbove OffBelow EdgesMatch
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
