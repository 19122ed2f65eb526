SPECIFICATION ESpec
CONSTANTS
 Family = "comment"
 MaxLen = 6
INVARIANTS TypeOK ErrType NulOnce EofOnce EofSilent Quirked Solidus EndTags Dups Clean
PROPERTY GrowErr
CHECK_DEADLOCK FALSE
