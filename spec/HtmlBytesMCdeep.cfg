SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Twice Ends Kept NoWide FirstDecides Settled
CHECK_DEADLOCK FALSE
