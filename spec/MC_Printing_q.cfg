SPECIFICATION Spec
CONSTANTS M = 10007 Depth = 3 Masks = {0, 1, 2, 3} Classes = {"one", "mone", "prod", "sum"} Gen = TRUE
INVARIANTS RoundTrip TopLevel Juxtaposed Cut Emit
CHECK_DEADLOCK FALSE
