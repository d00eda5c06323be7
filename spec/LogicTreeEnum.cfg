CONSTANTS MaxLevels = 3
          MaxBranches = 2
          Pairs = TRUE
          Units = 10
          Zero = FALSE
INIT Init
NEXT WriteNext
INVARIANTS EmitDoc
CHECK_DEADLOCK FALSE
