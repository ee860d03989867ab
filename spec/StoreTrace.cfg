SPECIFICATION TSpec
INVARIANTS Accepted TypeOK
CHECK_DEADLOCK FALSE
