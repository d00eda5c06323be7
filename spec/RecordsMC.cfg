CONSTANTS Depth = 4
          Mode = "check"
INIT MCInit
NEXT MCNext
VIEW NoHist
INVARIANTS ValidMeansConvertible
CHECK_DEADLOCK FALSE
