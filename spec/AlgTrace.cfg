SPECIFICATION Spec
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
