SPECIFICATION TraceSpec
CONSTANT Strict = TRUE
CHECK_DEADLOCK FALSE
