SPECIFICATION Spec
CONSTANTS
  BYTE = 8
  Structs <- WStructs
  Enums <- WEnums
  Objs <- WObjs
CHECK_DEADLOCK FALSE
