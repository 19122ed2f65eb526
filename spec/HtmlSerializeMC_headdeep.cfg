SPECIFICATION Spec
CONSTANTS
 Family = "head"
 MaxNodes = 5
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
