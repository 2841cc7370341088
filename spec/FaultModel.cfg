CONSTANTS
  MaxData = 6
  Caps = {1, 2, 3, 4}
  Limits = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  Chunks = {1, 2, 3}
  Designs = {"sound", "careless", "early"}
SPECIFICATION Spec
INVARIANTS PrefixKept Truthful GoodsFall NothingLost Noticed Complete
POSTCONDITION OthersFail
VIEW View
CHECK_DEADLOCK FALSE
