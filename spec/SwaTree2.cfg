SPECIFICATION Spec
CONSTANTS N = 2 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
