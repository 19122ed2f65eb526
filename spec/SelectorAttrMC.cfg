SPECIFICATION Spec
INVARIANTS Attr
CONSTANTS MaxTok = 6 MaxNode = 0 Mode = "attr"
CHECK_DEADLOCK FALSE
