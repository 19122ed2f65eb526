SPECIFICATION Spec
CONSTANTS
 Family = "block"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
