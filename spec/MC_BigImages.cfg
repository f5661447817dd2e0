CONSTANTS MaxN = 2
 Cap = 1
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
