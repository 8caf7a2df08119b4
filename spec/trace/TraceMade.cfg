SPECIFICATION TraceSpec
CONSTANT In <- TraceIn
CHECK_DEADLOCK FALSE
