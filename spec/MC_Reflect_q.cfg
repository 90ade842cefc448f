SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2
INVARIANTS Fixes Outer
CHECK_DEADLOCK FALSE
