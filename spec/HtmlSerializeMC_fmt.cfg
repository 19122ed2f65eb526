SPECIFICATION Spec
CONSTANTS
 Family = "fmt"
 MaxNodes = 3
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
