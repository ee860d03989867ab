SPECIFICATION Fair
CONSTANTS NS = 1  NP = 2  Ids = {1, 2}  
          TimeoutSet <- T32
PROPERTIES Ends PubEnds
CHECK_DEADLOCK FALSE
