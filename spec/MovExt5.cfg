SPECIFICATION Spec
CONSTANTS N = 5 Values = {1, 2, 3} Top = 3 Slack = 8
INVARIANTS IsExtreme NeverEmpty Amortized
VIEW View
CHECK_DEADLOCK FALSE
