SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2 Full = TRUE
INVARIANTS Scalars Vectors
CHECK_DEADLOCK FALSE
