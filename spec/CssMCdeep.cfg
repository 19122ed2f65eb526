SPECIFICATION Spec
CONSTANTS MaxText = 4  MaxTok = 0  Mode = "text"
INVARIANT TextInv
CHECK_DEADLOCK FALSE
