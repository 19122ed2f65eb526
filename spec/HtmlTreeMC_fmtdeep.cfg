SPECIFICATION Spec
CONSTANTS
 Family = "fmt"
 MaxLen = 6
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
