SPECIFICATION Spec
CONSTANTS
 Family = "tmpl"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
