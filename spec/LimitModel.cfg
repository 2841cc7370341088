SPECIFICATION Spec
CONSTANTS
  Caps = {2, 3, 4}
  Most = 6
  Xs = {1, 2, 3}
INVARIANTS Inside AsDefined AllThere
VIEW View
CHECK_DEADLOCK FALSE
