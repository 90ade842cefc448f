SPECIFICATION Spec
CONSTANTS MM = 3 NN = 3
INVARIANTS Fixes Outer
CHECK_DEADLOCK FALSE
