CONSTANTS Depth = 3
          Small = TRUE
          MaxSeqs = 5
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
