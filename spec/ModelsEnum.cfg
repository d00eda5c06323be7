CONSTANTS
 Kinds <- KindsVuln
 MaxModels = 1
 MaxBack = 0
INIT Init
NEXT Stop
INVARIANTS Emit
CHECK_DEADLOCK FALSE
