CONSTANTS MaxSteps = 2
INIT Init
NEXT Next
INVARIANTS NotAltered NothingLost Repeatable Known
CHECK_DEADLOCK FALSE
