SPECIFICATION MCSpec
CONSTANTS Cap = 2  MaxId = 3  RecvT = 2  ShortT = 1  LongT = 3
          N = 3  F = 2  TMax = 1000  MCKinds = {"rp", "wpm"}  MCBad = {FALSE}
VIEW View
INVARIANTS TypeOK IdsUnique IdsConserved Bounded TriesBounded BoundRight OnceOnly OwnReply OkJustified Idle
PROPERTIES Settled Fifo
CHECK_DEADLOCK FALSE
