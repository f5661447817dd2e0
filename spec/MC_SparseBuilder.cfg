CONSTANTS N = 4
 W = 2
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
