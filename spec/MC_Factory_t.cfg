SPECIFICATION Spec
CONSTANTS M = 10007 MaxN = 3 MaxCl = 6 Ents = {1,2,3,4,5,6,7} Gen = TRUE
INVARIANTS Symmetric Placed Spaces Default Emit
CHECK_DEADLOCK FALSE
