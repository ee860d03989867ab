SPECIFICATION InSpec
CONSTANTS Cap = 20  MaxId = 254  RecvT = 5000  ShortT = 1000  LongT = 10000
INVARIANTS Accepted IdsUnique Bounded TriesBounded BoundRight
CHECK_DEADLOCK FALSE
