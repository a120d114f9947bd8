SPECIFICATION Spec
CONSTANTS
  BYTE = 2
  MaxLen = 3
  Deep = FALSE
  Structs <- StructsV
  Enums <- EnumsV
  Objs <- ObjsV
INVARIANTS Exclusive Reads Lengths Reports TwoDynamic Back Independent Refusal
CHECK_DEADLOCK FALSE
