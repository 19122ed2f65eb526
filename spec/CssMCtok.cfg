SPECIFICATION Spec
CONSTANTS MaxText = 0  MaxTok = 4  Mode = "tok"
INVARIANT TokInv
CHECK_DEADLOCK FALSE
