SPECIFICATION TraceSpec
INVARIANTS Accepted OnlyInRange Schedule
CHECK_DEADLOCK FALSE
