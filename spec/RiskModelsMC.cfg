CONSTANTS
 MaxOps = 3
 LossTypes = {"structural", "fatalities"}
SPECIFICATION Spec
VIEW View
INVARIANTS ExactlyPairs Values Refusals OrderFree Names
CHECK_DEADLOCK FALSE
