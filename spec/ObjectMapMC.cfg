SPECIFICATION MCSpec
INVARIANT OneEach
PROPERTY Others
CHECK_DEADLOCK FALSE
