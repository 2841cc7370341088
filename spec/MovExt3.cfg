SPECIFICATION Spec
CONSTANTS N = 3 Values = {1, 2, 3} Top = 3 Slack = 4
INVARIANTS IsExtreme NeverEmpty Amortized
VIEW View
CHECK_DEADLOCK FALSE
