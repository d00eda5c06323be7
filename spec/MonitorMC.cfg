CONSTANTS NP = 2
          Blocks = 2
          MaxRead = 1
INIT MCInit
NEXT MCNext
INVARIANTS Measured OncePerBlock InOrder
CHECK_DEADLOCK FALSE
