SPECIFICATION Spec
CONSTANTS MaxLen = 11 Gen = TRUE Ops = {"+", "-", "*", "^", "|", "<"}
INVARIANTS Agree Frontier Paren Stable Emit
CHECK_DEADLOCK FALSE
