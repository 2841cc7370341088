CONSTANT Top = 20
SPECIFICATION Spec
INVARIANTS Arithmetic Order Shifts Bits Seqs Sorted Decoded
CHECK_DEADLOCK FALSE
