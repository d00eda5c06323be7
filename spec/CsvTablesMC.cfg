CONSTANTS
 Prefixes = {"a", "b"}
 Kinds = {"DiscreteVulnerabilitySet", "DiscreteVulnerability", "Location"}
 MaxRows = 2
 MaxFiles = 3
 MaxOps = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS ReadBack Divide EveryBadOnce Aside KeysIdentify
CHECK_DEADLOCK FALSE
