INIT TraceInit
NEXT TraceNext
INVARIANTS NoClash
CHECK_DEADLOCK FALSE
