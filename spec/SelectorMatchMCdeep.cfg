SPECIFICATION Spec
INVARIANTS Matching Witness Relations Queries
CONSTANTS MaxTok = 0 MaxNode = 5 Mode = "match"
CHECK_DEADLOCK FALSE
