SPECIFICATION Spec
CONSTANTS
 Family = "raw"
 MaxNodes = 4
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
