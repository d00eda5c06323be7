INIT TraceInit
NEXT TraceNext
INVARIANTS NoClash IndexExact
CHECK_DEADLOCK FALSE
