SPECIFICATION TraceSpec
CONSTANTS
  BYTE = 8
  Structs <- WStructs
  Enums <- WEnums
  
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
