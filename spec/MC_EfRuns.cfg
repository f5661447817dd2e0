CONSTANTS K = 2
 M = 3
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
