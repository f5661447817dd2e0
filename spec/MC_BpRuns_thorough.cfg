CONSTANTS K = 5
 M = 3
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
