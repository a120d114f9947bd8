SPECIFICATION Spec
CONSTANTS
  BYTE = 3
  MaxWidth = 8
  AllContents = TRUE
INVARIANTS PackRefines UnpackRefines Within
CHECK_DEADLOCK FALSE
