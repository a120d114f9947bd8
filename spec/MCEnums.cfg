SPECIFICATION Spec
CONSTANTS
  BYTE = 2
  Structs <- NoDecls
  Enums <- NoDecls
  MaxVars = 3
  Givens <- GivensV
  TypeChoices <- TypesV
  GEN = FALSE
INVARIANTS Running Minimal Inverse
CHECK_DEADLOCK FALSE
