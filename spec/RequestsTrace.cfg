SPECIFICATION TSpec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
