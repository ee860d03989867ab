SPECIFICATION MCSpec
CONSTANTS NS = 2  NP = 3  Ids = {1}  
          TimeoutSet <- T32
INVARIANTS OnlyInRange Schedule Foreign Missed Ordered
CHECK_DEADLOCK FALSE
