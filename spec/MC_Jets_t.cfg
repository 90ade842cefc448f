SPECIFICATION Spec
CONSTANTS
 P = 3
 N = 2
 K = 2
 R = 1
 GS <- GS2
INVARIANTS Succession Leibniz
CHECK_DEADLOCK FALSE
