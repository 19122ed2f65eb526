CONSTANTS N = 3
          K = 0
SPECIFICATION Spec
INVARIANTS Pointer Good Reversible Reparses
PROPERTY Stops
CHECK_DEADLOCK FALSE
