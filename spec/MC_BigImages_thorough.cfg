CONSTANTS MaxN = 5
 Cap = 1
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
