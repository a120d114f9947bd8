SPECIFICATION Spec
CONSTANTS
  BYTE = 3
  MAXN = 4
  Structs <- NoDecls
  Enums <- NoDecls
INVARIANTS InRange Inverse TextOk
CHECK_DEADLOCK FALSE
