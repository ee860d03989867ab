SPECIFICATION MCSpec
INVARIANTS TypeOK OwnPort
PROPERTIES OneId Kept
CHECK_DEADLOCK FALSE
