SPECIFICATION Spec
CONSTANTS
  BYTE = 2
  Structs <- StructsV
  Enums <- EnumsV
  Objs <- ObjsV
INVARIANTS RoundTrip Canonical Frame Isolated OwnBitsOnly UnownedIgnored ByArithmetic PackedByArithmetic Validity Reserved Mirrored SparseIsDense Sizes1
CHECK_DEADLOCK FALSE
