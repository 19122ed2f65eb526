SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Twice Ends Kept NoWide FirstDecides Settled
CHECK_DEADLOCK FALSE
