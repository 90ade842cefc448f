SPECIFICATION Spec
CONSTANTS Depth = 6 Gen = TRUE
INVARIANTS Once Ordered Modes Emit
CHECK_DEADLOCK FALSE
