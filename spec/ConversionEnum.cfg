CONSTANTS MaxSteps = 1
INIT Init
NEXT Stop
INVARIANTS Emit
CHECK_DEADLOCK FALSE
