CONSTANTS N = 5
          Tokens <- Opaques
SPECIFICATION Spec
INVARIANTS OpaqueParses
CHECK_DEADLOCK FALSE
