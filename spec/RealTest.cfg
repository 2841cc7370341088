SPECIFICATION Spec
INVARIANTS Trig ArcTan ExpLn Bessel Ints
CHECK_DEADLOCK FALSE
