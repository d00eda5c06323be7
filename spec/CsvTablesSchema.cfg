CONSTANTS
 Prefixes = {"a"}
 Kinds = {"Location"}
 MaxRows = 0
 MaxFiles = 1
 MaxOps = 0
INIT SchemaInit
NEXT SchemaNext
INVARIANTS EmitSchema
CHECK_DEADLOCK FALSE
