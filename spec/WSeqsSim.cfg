CONSTANTS Depth = 12
          Small = FALSE
          MaxSeqs = 7
INIT MCInit
NEXT SimNext
INVARIANTS WeightIsSum
CHECK_DEADLOCK FALSE
