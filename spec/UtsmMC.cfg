SPECIFICATION MCSpec
CONSTANTS NS = 2  NP = 2  Ids = {1, 2}  
          TimeoutSet <- TBoth
INVARIANTS OnlyInRange Schedule Foreign Missed Ordered
CHECK_DEADLOCK FALSE
