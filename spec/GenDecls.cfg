SPECIFICATION Spec
CONSTANTS
  BYTE = 8
  Structs <- NoStructs
  Enums <- TwoVariants
  MaxFields = 2
  FieldTypes <- TypesV
  Positions <- PositionsV
  SizeAttrs <- AttrsV
  StructSizes <- SizesV
  GEN = TRUE
INVARIANTS MachineIsDeclarative NoOverlap Inside Covers OwnIsSlots
CHECK_DEADLOCK FALSE
