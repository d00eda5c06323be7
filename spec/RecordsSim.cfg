CONSTANTS Depth = 10
          Mode = "sim"
INIT MCInit
NEXT SimNext
CHECK_DEADLOCK FALSE
