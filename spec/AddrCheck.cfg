SPECIFICATION ASpec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
