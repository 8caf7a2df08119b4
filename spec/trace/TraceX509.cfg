SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
VIEW Where
CONSTANT In <- TraceIn
