CONSTANTS N = 5
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
