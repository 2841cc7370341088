SPECIFICATION Spec
CONSTANTS N = 3 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
