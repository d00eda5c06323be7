CONSTANTS
 MaxOptions = 2
 MaxParses = 3
SPECIFICATION Spec
VIEW View
INVARIANTS Independent Complete Given TreeRead Flat
CHECK_DEADLOCK FALSE
