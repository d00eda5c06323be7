CONSTANTS Depth = 1000
          Small = FALSE
          MaxLen = 4
INIT MCInit
NEXT MCNext
VIEW NoHist
CONSTRAINT Bound
INVARIANTS NoClash IndexExact LookupExact
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE
