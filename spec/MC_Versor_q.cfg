SPECIFICATION Spec
CONSTANTS MM = 3 NN = 2
INVARIANTS VersorExact BladeExact
CHECK_DEADLOCK FALSE
