SPECIFICATION Spec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
