CONSTANT N = 2
SPECIFICATION Spec
INVARIANTS Agrees Plain OneHash NoCred Canon Kept
CHECK_DEADLOCK FALSE
