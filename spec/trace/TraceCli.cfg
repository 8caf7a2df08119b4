SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANT In <- TraceIn
