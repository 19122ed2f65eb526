SPECIFICATION Spec
CONSTANTS MovesOnExtension = FALSE
 MaxId = 4
 Strings <- MCStrings
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
