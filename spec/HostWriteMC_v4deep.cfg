CONSTANTS N = 6
          Tokens <- V4s
SPECIFICATION Spec
INVARIANTS V4Parses V4Canon
CHECK_DEADLOCK FALSE
