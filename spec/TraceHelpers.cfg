SPECIFICATION TraceSpec
CONSTANTS
  BYTE = 8
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
