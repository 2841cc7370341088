CONSTANTS Counts = {4, 16, 30}
          Amplitudes = {1, 7, 100}
          Calls = 400
SPECIFICATION Spec
INVARIANTS Shrinks Starts Passes Unity
CHECK_DEADLOCK FALSE
