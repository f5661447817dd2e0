CONSTANTS N = 8
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
