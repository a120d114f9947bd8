SPECIFICATION Spec
CONSTANTS
  MaxMembers = 3
  MaxOdd = 1
  GEN = TRUE
INVARIANT MachineIsDeclarative
CHECK_DEADLOCK FALSE
