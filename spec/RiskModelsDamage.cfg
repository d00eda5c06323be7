CONSTANTS
 MaxOps = 0
 LossTypes = {}
INIT DInit
NEXT DNext
INVARIANTS PerState Together AllSets DEmit
CHECK_DEADLOCK FALSE
