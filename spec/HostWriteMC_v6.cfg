CONSTANTS N = 5
          Tokens <- V6s
SPECIFICATION Spec
INVARIANTS V6Parses V6Canon
CHECK_DEADLOCK FALSE
