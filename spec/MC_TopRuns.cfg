CONSTANTS K = 2
 M = 3
 V = 2
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
