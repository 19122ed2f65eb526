SPECIFICATION ESpec
CONSTANTS
 Family = "tag"
 MaxLen = 3
INVARIANTS TypeOK ErrType NulOnce EofOnce EofSilent Quirked Solidus EndTags Dups Clean
PROPERTY GrowErr
CHECK_DEADLOCK FALSE
