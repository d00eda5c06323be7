CONSTANTS Depth = 5
          Small = TRUE
          MaxSeqs = 3
INIT MCInit
NEXT MCNext
INVARIANTS WeightIsSum
CHECK_DEADLOCK FALSE
VIEW NoHist
CONSTRAINT Bound
