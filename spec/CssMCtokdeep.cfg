SPECIFICATION Spec
CONSTANTS MaxText = 0  MaxTok = 5  Mode = "tok"
INVARIANT TokInv
CHECK_DEADLOCK FALSE
