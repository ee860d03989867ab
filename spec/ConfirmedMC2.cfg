SPECIFICATION MCSpec
CONSTANTS Cap = 2  MaxId = 2  RecvT = 2  ShortT = 1  LongT = 3
          N = 3  F = 1  TMax = 1000  MCKinds = {"rp", "wpm"}  MCBad = {TRUE, FALSE}
VIEW View
INVARIANTS TypeOK IdsUnique IdsConserved Bounded TriesBounded BoundRight OnceOnly OwnReply OkJustified Idle RefusedSilent
PROPERTIES Settled Fifo
CHECK_DEADLOCK FALSE
