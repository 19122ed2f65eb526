SPECIFICATION Spec
CONSTANTS
 Family = "esc"
 MaxNodes = 3
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
