CONSTANTS N = 4
          Tokens <- Opaques
SPECIFICATION Spec
INVARIANTS OpaqueParses
CHECK_DEADLOCK FALSE
