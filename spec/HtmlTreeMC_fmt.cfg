SPECIFICATION Spec
CONSTANTS
 Family = "fmt"
 MaxLen = 4
INVARIANTS Inv Tables AtEndOk
CHECK_DEADLOCK FALSE
