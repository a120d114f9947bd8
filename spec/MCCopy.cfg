SPECIFICATION Spec
CONSTANTS
  BYTE = 8
  MaxWidth = 40
  AllContents = FALSE
INVARIANTS PackRefines UnpackRefines Within
CHECK_DEADLOCK FALSE
