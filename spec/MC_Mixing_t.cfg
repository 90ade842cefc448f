SPECIFICATION Spec
CONSTANTS NAlg = 2 Depth = 2 Rel = {"product", "dopsum"}
INVARIANTS Pure
CHECK_DEADLOCK FALSE
