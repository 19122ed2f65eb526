CONSTANTS N = 3
          Vals = {0, 1}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
