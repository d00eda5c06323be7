CONSTANTS
 MaxOps = 3
 LossTypes = {"structural", "fatalities"}
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
