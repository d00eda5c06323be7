CONSTANTS Depth = 5
INIT MCInit
NEXT MCNext
VIEW NoHist
INVARIANTS WellFormed RowsFit
PROPERTIES Stable
CHECK_DEADLOCK FALSE
