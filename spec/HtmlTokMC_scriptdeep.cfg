SPECIFICATION Spec
CONSTANTS
 Family = "script"
 MaxLen = 5
INVARIANTS TypeOK Progress EofLast TagWF Confined Verbatim CommentWF DoctypeWF NoNulOut CdataOnly
PROPERTY Grow
CHECK_DEADLOCK FALSE
