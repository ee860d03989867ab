SPECIFICATION MCSpec
CONSTANTS Ops = {"objects"}  Calls = 1
INVARIANTS Ends Spoken
PROPERTIES OneSlot OnlyPV
CHECK_DEADLOCK FALSE
