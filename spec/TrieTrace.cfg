SPECIFICATION TraceSpec
CONSTANTS Labels = {}
 MaxLen = 0
 Vals = {}
CHECK_DEADLOCK FALSE
