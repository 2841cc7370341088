CONSTANTS Radius = 4
          Steps = {1, 2, 7}
SPECIFICATION Spec
INVARIANTS Agree Edge Small
CHECK_DEADLOCK FALSE
