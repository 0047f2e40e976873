SPECIFICATION Spec
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
