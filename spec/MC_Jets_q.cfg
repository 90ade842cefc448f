SPECIFICATION Spec
CONSTANTS
 P = 3
 N = 1
 K = 4
 R = 2
 GS <- GSq
INVARIANTS Succession Leibniz
CHECK_DEADLOCK FALSE
