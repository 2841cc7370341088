SPECIFICATION Spec
CONSTANTS N = 2 Top = 1 P = 9 PlainExact = TRUE
INVARIANTS NoDrift Compensated WholeFine PlainFine
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
