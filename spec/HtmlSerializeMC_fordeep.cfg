SPECIFICATION Spec
CONSTANTS
 Family = "for"
 MaxNodes = 5
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
