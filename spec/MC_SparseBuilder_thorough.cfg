CONSTANTS N = 6
 W = 3
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
