CONSTANTS N = 4
SPECIFICATION Spec
INVARIANTS Exact UpExact RmqExact
CHECK_DEADLOCK FALSE
