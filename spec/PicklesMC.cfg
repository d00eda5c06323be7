CONSTANTS MaxLen = 5
INIT MCInit
NEXT MCNext
INVARIANTS Faithful Shared Kept Complete Emit
CHECK_DEADLOCK FALSE
