CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS Exact UpExact RmqExact
CHECK_DEADLOCK FALSE
