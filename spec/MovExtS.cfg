SPECIFICATION Spec
CONSTANTS N = 3 Values = {1, 2, 3} Top = 3 Slack = 0
INVARIANTS IsExtreme NeverEmpty
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
