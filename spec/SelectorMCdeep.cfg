SPECIFICATION Spec
INVARIANTS Grammar
CONSTANTS MaxTok = 5 MaxNode = 0 Mode = "grammar"
CHECK_DEADLOCK FALSE
