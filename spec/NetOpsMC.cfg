SPECIFICATION MCSpec
CONSTANTS Ops = {"pwr", "prel", "prd", "ppri"}  Calls = 3
INVARIANTS Ends Spoken Commanded
PROPERTIES OneSlot OnlyPV
CHECK_DEADLOCK FALSE
