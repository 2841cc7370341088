CONSTANT Top = 64
SPECIFICATION Spec
INVARIANTS Symmetric Center Ends Below DoubleAngle LanczosOk KaiserOk Low2 Complementary HilbertOk
CHECK_DEADLOCK FALSE
