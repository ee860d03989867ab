SPECIFICATION TSpec
INVARIANTS Accepted OneEach
CHECK_DEADLOCK FALSE
