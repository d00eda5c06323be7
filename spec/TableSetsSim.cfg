CONSTANTS Depth = 14
          Mode = "sim"
          MaxLen = 9
INIT MCInit
NEXT SimNext
INVARIANTS NoClash
CHECK_DEADLOCK FALSE
