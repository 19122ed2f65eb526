SPECIFICATION Spec
CONSTANTS
 Family = "tmpl"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
