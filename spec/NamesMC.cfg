SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS FindOk EqOk
CHECK_DEADLOCK FALSE
