SPECIFICATION Spec
CONSTANTS MM = 3 NN = 3
INVARIANTS VersorExact BladeExact
CHECK_DEADLOCK FALSE
