SPECIFICATION Spec
CONSTANTS N = 3 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
