CONSTANTS N = 3
          Tokens <- Domains
SPECIFICATION Spec
INVARIANTS FixedPt Mirror Stricter DomainParses
CHECK_DEADLOCK FALSE
