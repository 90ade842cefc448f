SPECIFICATION Spec
CONSTANTS MM = 5 NN = 2
INVARIANTS Covered Formula
CHECK_DEADLOCK FALSE
