SPECIFICATION Spec
CONSTANTS
 Family = "block"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
