SPECIFICATION Spec
CONSTANTS N = 4 Top = 2 P = 9 PlainExact = TRUE
INVARIANTS NoDrift Compensated WholeFine PlainFine
VIEW View
CHECK_DEADLOCK FALSE
