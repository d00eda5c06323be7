CONSTANTS NP = 3
          Blocks = 2
          MaxRead = 1
INIT EnumInit
NEXT EnumNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
