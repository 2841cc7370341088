SPECIFICATION Spec
CONSTANTS X <- X6 Wild = 1 Ys <- Ys6
INVARIANTS Robust TheilSenRobust Normal
VIEW View
CHECK_DEADLOCK FALSE
