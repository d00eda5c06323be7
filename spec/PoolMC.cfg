CONSTANTS MaxTasks = 3
          MaxRounds = 2
          MayBoom = FALSE
SPECIFICATION Spec0
INVARIANTS Sound AccIsTheOrder
PROPERTIES Growing RanForGood Ends EndsWell
CHECK_DEADLOCK FALSE
