SPECIFICATION Spec
CONSTANTS
 Family = "tbl"
 MaxNodes = 5
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
