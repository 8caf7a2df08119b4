SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
