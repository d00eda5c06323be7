CONSTANTS MaxTasks = 3
          MaxRounds = 2
          MayBoom = FALSE
INIT EnumInit
NEXT EnumNext
INVARIANTS Emit
CHECK_DEADLOCK FALSE
