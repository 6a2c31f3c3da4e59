SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  MaxFiles = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
