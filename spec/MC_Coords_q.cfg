SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2 Full = FALSE
INVARIANTS Scalars Vectors
CHECK_DEADLOCK FALSE
