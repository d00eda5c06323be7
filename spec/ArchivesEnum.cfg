CONSTANTS
 Names = {"a"}
 Texts = {"x\ny"}
 MaxOps = 4
 Quiet = 1
 MaxHandles = 2
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
