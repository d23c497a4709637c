SPECIFICATION TraceSpec
CONSTANTS
  MaxAdd = 0
  MaxIO = 0
POSTCONDITION TraceAccepted
VIEW View
CHECK_DEADLOCK FALSE
