SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  MaxFiles = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
