SPECIFICATION TraceSpec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
