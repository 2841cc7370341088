-------------------------------- MODULE LinesSets ------------------------------
EXTENDS LinesModel
X5 == <<0, 1, 2, 4, 7>>
X5b == <<3, -2, 5, 1, -4>>
X6 == <<2, -1, 0, 5, -1, 3>>       \* one abscissa twice
X6b == <<3, -2, 5, 1, -4, 0>>
X4 == <<3, 0, 1, -2>>
Ys4 == {-9, -2, 1, 8}
Ys6 == {-9, -3, -1, 0, 2, 8}
=============================================================================
