SPECIFICATION Spec
CONSTANTS Starts = {0, 3} MaxSum = 4
INVARIANTS DifferentiatesBack IntegratesBack
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
