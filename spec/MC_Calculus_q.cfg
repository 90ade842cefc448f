SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2 Full = FALSE
INVARIANTS Compat NoTorsion Leibniz LeibnizW Recip Normed
CHECK_DEADLOCK FALSE
