SPECIFICATION Spec
CONSTANTS
 Family = "cdata"
 MaxLen = 6
INVARIANTS TypeOK Progress EofLast TagWF Confined Verbatim CommentWF DoctypeWF NoNulOut CdataOnly
PROPERTY Grow
CHECK_DEADLOCK FALSE
