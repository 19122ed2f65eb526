SPECIFICATION Spec
CONSTANTS
 Family = "raw"
 MaxNodes = 3
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
