SPECIFICATION Spec
CONSTANTS
 Family = "fmt"
 MaxNodes = 4
INVARIANTS Inverse Escapes
CHECK_DEADLOCK FALSE
