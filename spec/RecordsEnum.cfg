CONSTANTS Depth = 3
          Mode = "check"
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
