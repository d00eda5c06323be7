CONSTANTS MaxItems = 4
          MaxW = 3
          Weights <- WAll
INIT MCInit
NEXT Stop
INVARIANTS Emit
CHECK_DEADLOCK FALSE
