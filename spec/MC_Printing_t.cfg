SPECIFICATION Spec
CONSTANTS M = 10007 Depth = 4 Masks = {0, 1, 2, 3} Classes = {"one", "mone", "num", "prod", "sum", "mix", "fld"} Gen = TRUE
INVARIANTS RoundTrip TopLevel Juxtaposed Cut Emit
CHECK_DEADLOCK FALSE
