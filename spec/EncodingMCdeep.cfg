CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Schedule Continuation Scalar Declarative
PROPERTY Ends
CHECK_DEADLOCK FALSE
