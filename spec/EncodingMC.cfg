CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Schedule Continuation Scalar Declarative
PROPERTY Ends
CHECK_DEADLOCK FALSE
