CONSTANTS Big = FALSE
INIT Init
NEXT Next
INVARIANTS Reflexive Symmetric MonotoneInExclusions
CHECK_DEADLOCK FALSE
