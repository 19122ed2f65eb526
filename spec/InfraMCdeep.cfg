SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Case Newlines Blank Splits Sizes Forms Matcher
CHECK_DEADLOCK FALSE
