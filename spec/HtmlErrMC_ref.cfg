SPECIFICATION ESpec
CONSTANTS
 Family = "ref"
 MaxLen = 2
INVARIANTS TypeOK ErrType NulOnce EofOnce EofSilent Quirked Solidus EndTags Dups Clean
PROPERTY GrowErr
CHECK_DEADLOCK FALSE
