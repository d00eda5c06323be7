INIT TraceInit
NEXT TraceNext
INVARIANTS WeightIsSum
CHECK_DEADLOCK FALSE
