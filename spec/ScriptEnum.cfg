CONSTANTS
 Paths = {"A", "Z.zip"}
 MaxRuns = 3
 MaxEdits = 1
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
