SPECIFICATION Spec
CONSTANTS
 Family = "head"
 MaxNodes = 4
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
