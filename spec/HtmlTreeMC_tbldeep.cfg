SPECIFICATION Spec
CONSTANTS
 Family = "tbl"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
