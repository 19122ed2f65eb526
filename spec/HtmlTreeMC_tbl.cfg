SPECIFICATION Spec
CONSTANTS
 Family = "tbl"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
