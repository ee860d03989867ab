SPECIFICATION MCSpec
CONSTANTS Ops = {"pdet", "rname"}  Calls = 2
INVARIANTS Ends Spoken
PROPERTIES OneSlot OnlyPV
CHECK_DEADLOCK FALSE
