SPECIFICATION Spec
CONSTANTS N = 7 Values = {1, 2, 3, 4} Top = 4 Slack = 8
INVARIANTS IsExtreme NeverEmpty Amortized
VIEW View
CHECK_DEADLOCK FALSE
