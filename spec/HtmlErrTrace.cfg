SPECIFICATION TraceSpec
CONSTANT Strict = FALSE
CHECK_DEADLOCK FALSE
