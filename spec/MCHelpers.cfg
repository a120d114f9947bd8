SPECIFICATION Spec
CONSTANTS
  BYTE = 2
INVARIANTS Length Moved Smallest
CHECK_DEADLOCK FALSE
