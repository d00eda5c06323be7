CONSTANTS
 Kinds <- KindsVuln
 MaxModels = 2
 MaxBack = 2
INIT Init
NEXT Next
INVARIANTS RoundTrip Fixpoint RowsWellFormed
CHECK_DEADLOCK FALSE
