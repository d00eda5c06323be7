CONSTANTS MaxBins = 5
          MaxPoints = 4
          Rates = {0, 1, 3}
INIT MCInit
NEXT Next
INVARIANTS Conserved DistinctIds NoZeroFault OnePerItem Inherited
CHECK_DEADLOCK FALSE
