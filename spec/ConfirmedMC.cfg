SPECIFICATION MCSpec
CONSTANTS Cap = 1  MaxId = 2  RecvT = 2  ShortT = 1  LongT = 3
          N = 2  F = 2  TMax = 1000  MCKinds = {"rp", "wp", "rpm"}  MCBad = {FALSE}
VIEW View
INVARIANTS TypeOK IdsUnique IdsConserved Bounded TriesBounded BoundRight OnceOnly OwnReply OkJustified Idle RefusedSilent
PROPERTIES Settled Fifo
CHECK_DEADLOCK FALSE
