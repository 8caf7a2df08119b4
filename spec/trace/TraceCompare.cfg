SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANT InA <- TraceA
CONSTANT InB <- TraceB
