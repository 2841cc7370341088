SPECIFICATION Spec
CONSTANTS N = 6 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
