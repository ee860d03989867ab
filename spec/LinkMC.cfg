SPECIFICATION MCSpec
CONSTANTS NL = 2  NP = 2  NS = 1
INVARIANTS OneOwner Released Excl Supplied
CHECK_DEADLOCK FALSE
