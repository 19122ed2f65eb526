SPECIFICATION Spec
CONSTANTS
 Family = "head"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
