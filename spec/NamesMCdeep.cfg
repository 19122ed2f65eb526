SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS FindOk EqOk
CHECK_DEADLOCK FALSE
