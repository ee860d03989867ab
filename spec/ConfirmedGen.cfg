SPECIFICATION GenSpec
CONSTANTS Cap = 20  MaxId = 254  RecvT = 5000  ShortT = 1000  LongT = 10000
          Profile = "mixed"  N = 8  MaxOps = 40
INVARIANTS IdsUnique Bounded TriesBounded BoundRight
CHECK_DEADLOCK FALSE
