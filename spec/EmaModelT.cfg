CONSTANTS Sizes = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 32, 48, 50, 99, 100, 400, 1001}
          MaxOrder = 16
SPECIFICATION Spec
INVARIANTS Same Half Sensible Whole Table Exact
CHECK_DEADLOCK FALSE
