SPECIFICATION Spec
CONSTANTS MM = 5 NN = 2
INVARIANTS UndualInv Complement Sides Opposite
CHECK_DEADLOCK FALSE
