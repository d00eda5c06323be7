CONSTANTS
 Prefixes = {"a", "a__b"}
 Kinds = {"DiscreteVulnerabilitySet", "GmfSet"}
 MaxRows = 1
 MaxFiles = 3
 MaxOps = 2
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
