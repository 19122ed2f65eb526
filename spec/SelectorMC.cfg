SPECIFICATION Spec
INVARIANTS Grammar
CONSTANTS MaxTok = 4 MaxNode = 0 Mode = "grammar"
CHECK_DEADLOCK FALSE
