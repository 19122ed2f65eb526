SPECIFICATION Spec
INVARIANTS Matching Witness Relations Queries
CONSTANTS MaxTok = 0 MaxNode = 4 Mode = "match"
CHECK_DEADLOCK FALSE
