SPECIFICATION Spec
CONSTANTS Cap = 20  MaxId = 254
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
