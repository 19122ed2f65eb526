SPECIFICATION TraceSpec
CONSTANTS MovesOnExtension = FALSE
 Strings = {}
 MaxId = 0
CHECK_DEADLOCK FALSE
