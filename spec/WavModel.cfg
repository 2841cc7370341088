SPECIFICATION Spec
CONSTANTS Most = 3 Chunks = {0, 1, 2}
INVARIANTS AlwaysWellFormed UnknownWhileOpen RightFrames DataRight FieldsRight
VIEW View
CHECK_DEADLOCK FALSE
