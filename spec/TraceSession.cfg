SPECIFICATION TraceSpec
CONSTANTS
  BYTE = 8
  Structs <- WStructs
  Enums <- WEnums
  Objs <- WObjs
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
