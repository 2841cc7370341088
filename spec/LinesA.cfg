SPECIFICATION Spec
CONSTANTS X <- X6b Wild = 2 Ys <- Ys4
INVARIANTS Robust Normal
VIEW View
CHECK_DEADLOCK FALSE
