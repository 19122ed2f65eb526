SPECIFICATION Spec
CONSTANTS MaxText = 3  MaxTok = 0  Mode = "text"
INVARIANT TextInv
CHECK_DEADLOCK FALSE
