SPECIFICATION Spec
CONSTANTS MM = 3 NN = 3
INVARIANTS UndualInv Complement Sides Opposite
CHECK_DEADLOCK FALSE
