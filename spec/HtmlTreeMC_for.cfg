SPECIFICATION Spec
CONSTANTS
 Family = "for"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
