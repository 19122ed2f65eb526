CONSTANTS N = 4
          Tokens <- Domains
SPECIFICATION Spec
INVARIANTS FixedPt Mirror Stricter DomainParses
CHECK_DEADLOCK FALSE
