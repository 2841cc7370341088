SPECIFICATION Spec
CONSTANTS N = 4 Top = 6 P = 3 PlainExact = FALSE
INVARIANTS NoDrift Compensated WholeFine PlainFine
VIEW View
CHECK_DEADLOCK FALSE
