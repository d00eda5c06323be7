CONSTANTS Depth = 1000
          Mode = "check"
          MaxLen = 2
INIT MCInit
NEXT MCNext
VIEW NoHist
CONSTRAINT Bound
INVARIANTS NoClash NoDangling
CHECK_DEADLOCK FALSE
