SPECIFICATION Spec
CONSTANTS
  BYTE = 8
  MAXN = 1
  Structs <- NoDecls
  Enums <- NoDecls
INVARIANTS InRange Inverse TextOk
CHECK_DEADLOCK FALSE
