SPECIFICATION Spec
CONSTANTS Most = 3 Chunks = {0, 1, 2}
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
