SPECIFICATION Spec
INVARIANT Written
CHECK_DEADLOCK FALSE
