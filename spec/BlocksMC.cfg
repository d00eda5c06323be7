CONSTANTS MaxItems = 4
          MaxW = 4
          Weights <- WAll
INIT MCInit
NEXT Next
INVARIANTS Correct ErrorIffBad HintCount
CHECK_DEADLOCK FALSE
