SPECIFICATION Spec
CONSTANTS NAlg = 2 Depth = 1 Rel = {"product", "dopsum", "ltprod", "mltprod"}
INVARIANTS Pure Emit
CHECK_DEADLOCK FALSE
