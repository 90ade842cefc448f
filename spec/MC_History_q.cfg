SPECIFICATION Spec
CONSTANTS NAlg = 2 Depth = 2 Keyed = "algebra"
INVARIANTS Transparent Emit
CHECK_DEADLOCK FALSE
