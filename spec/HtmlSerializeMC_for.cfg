SPECIFICATION Spec
CONSTANTS
 Family = "for"
 MaxNodes = 3
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
