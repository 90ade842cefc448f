SPECIFICATION Spec
CONSTANTS MM = 3 NN = 3
INVARIANTS Constructive InverseForm BladeRecip Degenerate BaseBlade
CHECK_DEADLOCK FALSE
