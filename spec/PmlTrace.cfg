SPECIFICATION TraceSpec
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
