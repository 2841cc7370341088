SPECIFICATION Spec
CONSTANTS N = 4 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
