CONSTANTS Grid = 12
          Orders = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Bilinear Butterworth
CHECK_DEADLOCK FALSE
