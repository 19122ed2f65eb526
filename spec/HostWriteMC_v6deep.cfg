CONSTANTS N = 7
          Tokens <- V6s
SPECIFICATION Spec
INVARIANTS V6Parses V6Canon
CHECK_DEADLOCK FALSE
