SPECIFICATION Spec
CONSTANTS
 Family = "cdata"
 MaxLen = 4
INVARIANTS TypeOK Progress EofLast TagWF Confined Verbatim CommentWF DoctypeWF NoNulOut CdataOnly
PROPERTY Grow
CHECK_DEADLOCK FALSE
