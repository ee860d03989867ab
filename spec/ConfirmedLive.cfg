SPECIFICATION MCFair
CONSTANTS Cap = 1  MaxId = 2  RecvT = 1  ShortT = 1  LongT = 2
          N = 2  F = 1  TMax = 8  MCKinds = {"rp", "rpm"}  MCBad = {FALSE}
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
