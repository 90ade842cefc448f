SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2 KK = 2 Few = FALSE
INVARIANTS Functor Isometry Exact Gauss
CHECK_DEADLOCK FALSE
