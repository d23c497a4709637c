SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
VIEW View
CHECK_DEADLOCK FALSE
