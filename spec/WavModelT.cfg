SPECIFICATION Spec
CONSTANTS Most = 9 Chunks = {0, 1, 2, 3, 5}
INVARIANTS AlwaysWellFormed UnknownWhileOpen RightFrames DataRight FieldsRight
VIEW View
CHECK_DEADLOCK FALSE
