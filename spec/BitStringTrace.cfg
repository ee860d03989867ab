SPECIFICATION TSpec
CONSTANT MaxCap = 15
INVARIANTS Accepted TypeOK
CHECK_DEADLOCK FALSE
