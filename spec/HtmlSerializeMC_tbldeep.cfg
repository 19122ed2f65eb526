SPECIFICATION Spec
CONSTANTS
 Family = "tbl"
 MaxNodes = 6
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
