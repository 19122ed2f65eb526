SPECIFICATION Spec
CONSTANTS
 Family = "head"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
