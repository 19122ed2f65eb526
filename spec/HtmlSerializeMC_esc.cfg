SPECIFICATION Spec
CONSTANTS
 Family = "esc"
 MaxNodes = 2
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
