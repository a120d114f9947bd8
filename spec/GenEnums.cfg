SPECIFICATION Spec
CONSTANTS
  BYTE = 8
  Structs <- NoDecls
  Enums <- NoDecls
  MaxVars = 2
  Givens <- GivensV
  TypeChoices <- TypesV
  GEN = TRUE
INVARIANTS Running Minimal Inverse
CHECK_DEADLOCK FALSE
