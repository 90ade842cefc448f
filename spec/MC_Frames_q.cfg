SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2
INVARIANTS Constructive InverseForm BladeRecip Degenerate BaseBlade
CHECK_DEADLOCK FALSE
