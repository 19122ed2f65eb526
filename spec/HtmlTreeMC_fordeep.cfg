SPECIFICATION Spec
CONSTANTS
 Family = "for"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
