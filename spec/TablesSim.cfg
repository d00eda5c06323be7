CONSTANTS Depth = 14
          Small = FALSE
          MaxLen = 4
INIT MCInit
NEXT SimNext
INVARIANTS NoClash IndexExact
CHECK_DEADLOCK FALSE
