CONSTANTS Taps = {5, 9, 13, 17, 33}
          Runs = 3
SPECIFICATION Spec
INVARIANTS HilbertRight CdcRight
CHECK_DEADLOCK FALSE
