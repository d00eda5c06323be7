CONSTANTS MaxBins = 4
          MaxPoints = 4
          Rates = {0, 1, 3}
INIT MCInit
NEXT Stop
INVARIANTS Emit
CHECK_DEADLOCK FALSE
