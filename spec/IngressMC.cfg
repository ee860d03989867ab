SPECIFICATION Spec
CONSTANTS Steps = 1
          Values = {0, 12, 255}
INVARIANTS Exact Total LinkOnly Relay NetOnly SameId
CHECK_DEADLOCK FALSE
