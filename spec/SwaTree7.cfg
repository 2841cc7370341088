SPECIFICATION Spec
CONSTANTS N = 7 Values = {1, 2}
INVARIANTS CombinesWindow FewOps
VIEW View
CHECK_DEADLOCK FALSE
