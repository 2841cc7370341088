SPECIFICATION Spec
CONSTANTS N = 3 Top = 7 P = 3 PlainExact = FALSE
INVARIANTS NoDrift Compensated WholeFine PlainFine
VIEW View
CHECK_DEADLOCK FALSE
