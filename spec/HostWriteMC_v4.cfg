CONSTANTS N = 5
          Tokens <- V4s
SPECIFICATION Spec
INVARIANTS V4Parses V4Canon
CHECK_DEADLOCK FALSE
