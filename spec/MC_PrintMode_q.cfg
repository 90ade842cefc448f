SPECIFICATION Spec
CONSTANTS Depth = 4 Gen = TRUE
INVARIANTS Once Ordered Modes Emit
CHECK_DEADLOCK FALSE
