CONSTANTS Alphabet = "01.-e "
          MaxLen = 4
INIT MCInit
NEXT MCNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
