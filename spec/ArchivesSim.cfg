CONSTANTS
 Names = {"a", "ab", "b"}
 Texts = {"x\ny", "z", "\n", "1,2\r\n"}
 MaxOps = 20
 Quiet = 4
 MaxHandles = 8
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
