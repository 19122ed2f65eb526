CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Agrees Plain OneHash NoCred Canon Kept
CHECK_DEADLOCK FALSE
