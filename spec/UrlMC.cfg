CONSTANTS N = 2
          K = 1
SPECIFICATION Spec
INVARIANTS Pointer Good Reversible Reparses
PROPERTY Stops
CHECK_DEADLOCK FALSE
