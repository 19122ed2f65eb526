SPECIFICATION Spec
CONSTANTS
 Family = "comment"
 MaxLen = 7
INVARIANTS TypeOK Progress EofLast TagWF Confined Verbatim CommentWF DoctypeWF NoNulOut CdataOnly
PROPERTY Grow
CHECK_DEADLOCK FALSE
