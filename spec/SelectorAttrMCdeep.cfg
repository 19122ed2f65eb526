SPECIFICATION Spec
INVARIANTS Attr
CONSTANTS MaxTok = 7 MaxNode = 0 Mode = "attr"
CHECK_DEADLOCK FALSE
