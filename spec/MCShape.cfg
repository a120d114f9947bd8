SPECIFICATION Spec
CONSTANTS
  MaxMembers = 2
  MaxOdd = 9
  GEN = FALSE
INVARIANT MachineIsDeclarative
PROPERTY NeverHealed
CHECK_DEADLOCK FALSE
