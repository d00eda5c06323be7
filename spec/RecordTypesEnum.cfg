CONSTANTS Depth = 3
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
