CONSTANTS
 MaxOptions = 2
 MaxParses = 2
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
