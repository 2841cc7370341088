CONSTANTS Values = {0, 1, 5}
          Lengths = {2, 3, 4}
SPECIFICATION Spec
INVARIANTS NaturalRight HermiteRight
CHECK_DEADLOCK FALSE
