SPECIFICATION TraceSpec
CONSTANTS MovesOnExtension = TRUE
 Strings = {}
 MaxId = 0
CHECK_DEADLOCK FALSE
