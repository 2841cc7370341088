SPECIFICATION Spec
CONSTANTS X <- X5b Wild = 2 Ys <- Ys4
INVARIANTS Normal
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
