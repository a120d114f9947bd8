SPECIFICATION Spec
CONSTANTS
  BYTE = 2
  Structs <- NoStructs
  Enums <- TwoVariants
  MaxFields = 3
  FieldTypes <- TypesV
  Positions <- PositionsV
  SizeAttrs <- AttrsV
  StructSizes <- SizesV
  GEN = FALSE
INVARIANTS MachineIsDeclarative NoOverlap Inside Covers OwnIsSlots MirrorImage
CHECK_DEADLOCK FALSE
