CONSTANTS Depth = 4
          Mode = "enum"
          MaxLen = 9
INIT MCInit
NEXT MCNext
INVARIANTS NoClash Emit
CHECK_DEADLOCK FALSE
