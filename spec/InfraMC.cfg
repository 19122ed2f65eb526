SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Case Newlines Blank Splits Sizes Forms Matcher
CHECK_DEADLOCK FALSE
