CONSTANTS Depth = 3
          Small = TRUE
          MaxLen = 4
INIT MCInit
NEXT MCNext
INVARIANTS NoClash IndexExact Emit
CHECK_DEADLOCK FALSE
