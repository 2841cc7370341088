SPECIFICATION Spec
CONSTANTS N = 1 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
