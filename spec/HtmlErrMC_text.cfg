SPECIFICATION ESpec
CONSTANTS
 Family = "text"
 MaxLen = 3
INVARIANTS TypeOK ErrType NulOnce EofOnce EofSilent Quirked Solidus EndTags Dups Clean
PROPERTY GrowErr
CHECK_DEADLOCK FALSE
