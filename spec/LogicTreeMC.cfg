CONSTANTS MaxLevels = 3
          MaxBranches = 2
          Pairs = TRUE
          Units = 10
          Zero = TRUE
SPECIFICATION Spec
INVARIANTS PathsOnce WeightsSumToOne NoneLost FollowsPrevious WalksArePaths NoZeroWeight SameAsRead WalkGoesOn
CHECK_DEADLOCK FALSE
