INIT TraceInit
NEXT TraceNext
INVARIANTS Sound
CHECK_DEADLOCK FALSE
