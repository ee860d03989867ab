SPECIFICATION MCSpec
CONSTANT MaxCap = 1
INVARIANTS TypeOK LastWritten
CHECK_DEADLOCK FALSE
