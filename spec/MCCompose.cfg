SPECIFICATION Spec
CONSTANTS
  BYTE = 2
  MaxLen = 4
  Deep = TRUE
  Structs <- StructsV
  Enums <- EnumsV
  Objs <- ObjsV
INVARIANTS Exclusive Reads Lengths Reports TwoDynamic Back Independent Refusal
CHECK_DEADLOCK FALSE
