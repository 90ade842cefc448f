SPECIFICATION Spec
CONSTANTS MaxLen = 9 Gen = TRUE Ops = {"+", "-", "*", "^", "|", "<"}
INVARIANTS Agree Frontier Paren Stable Emit
CHECK_DEADLOCK FALSE
