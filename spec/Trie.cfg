SPECIFICATION Spec
CONSTANTS Labels = {1, 2}
 MaxLen = 2
 Vals = {0, 7}
INVARIANTS TypeOK PrefixTree ChildrenExtend LongestIsStored
PROPERTY Local
CHECK_DEADLOCK FALSE
