CONSTANTS MaxLevels = 4
          MaxBranches = 4
          Pairs = TRUE
          Units = 100
          Zero = TRUE
INIT SimInit
NEXT SimNext
CHECK_DEADLOCK FALSE
