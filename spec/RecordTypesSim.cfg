CONSTANTS Depth = 9
INIT MCInit
NEXT SimNext
CHECK_DEADLOCK FALSE
