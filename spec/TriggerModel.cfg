SPECIFICATION Spec
INVARIANTS OnAbove OffBelow EdgesMatch
PROPERTY KeepsBetween
VIEW View
CHECK_DEADLOCK FALSE
