CONSTANTS K = 4
 M = 2
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
