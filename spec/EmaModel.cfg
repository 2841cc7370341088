CONSTANTS Sizes = {2, 3, 8, 11, 24, 100}
          MaxOrder = 16
SPECIFICATION Spec
INVARIANTS Same Half Sensible Whole Table Exact
CHECK_DEADLOCK FALSE
