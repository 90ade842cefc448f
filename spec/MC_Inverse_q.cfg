SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2
INVARIANTS Has Covered Formula
CHECK_DEADLOCK FALSE
