SPECIFICATION Spec
CONSTANTS X <- X5b Wild = 1 Ys <- Ys6
INVARIANTS Robust TheilSenRobust Normal
VIEW View
CHECK_DEADLOCK FALSE
