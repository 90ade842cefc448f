SPECIFICATION Spec
CONSTANTS M = 10007 MaxN = 3 MaxCl = 5 Ents = {1,3,4} Gen = TRUE
INVARIANTS Symmetric Placed Spaces Default Emit
CHECK_DEADLOCK FALSE
