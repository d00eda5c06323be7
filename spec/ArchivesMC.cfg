CONSTANTS
 Names = {"a", "ab"}
 Texts = {"x\ny", "z"}
 MaxOps = 6
 Quiet = 1
 MaxHandles = 3
INIT Init
NEXT Next
INVARIANTS Complete LastWins ReadersStable AllClosedAfterClose
CHECK_DEADLOCK FALSE
