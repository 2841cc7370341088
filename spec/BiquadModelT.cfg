CONSTANTS Grid = 40
          Orders = {1, 2, 3, 4, 5, 8}
SPECIFICATION Spec
INVARIANTS Bilinear Butterworth
CHECK_DEADLOCK FALSE
