SPECIFICATION MCSpec
CONSTANTS Ops = {"devobjs", "rdname", "rname"}  Calls = 2
INVARIANTS Ends Spoken
PROPERTIES OneSlot OnlyPV
CHECK_DEADLOCK FALSE
