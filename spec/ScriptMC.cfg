CONSTANTS
 Paths = {"A", "Z.zip"}
 MaxRuns = 3
 MaxEdits = 1
SPECIFICATION Spec
INVARIANTS Documents Tables AllConverted UpToDate
PROPERTIES Kept
VIEW View
CHECK_DEADLOCK FALSE
