SPECIFICATION ESpec
CONSTANTS
 Family = "doctype"
 MaxLen = 4
INVARIANTS TypeOK ErrType NulOnce EofOnce EofSilent Quirked Solidus EndTags Dups Clean
PROPERTY GrowErr
CHECK_DEADLOCK FALSE
