SPECIFICATION Spec
CONSTANTS
  Queries = {}
  MaxSignals = 2
  MCK = 2
  Moves = 2
  Stops = 1
  Faults = 1
  Files = 3
  FirstTip = 3
  UseWriter = TRUE
INVARIANTS ViewsCorrect StoreIsChain DiskComplete StoreBehind NeverBlocked DeadOnlyDeep
PROPERTIES AnswersCorrect DiskGrows Refines
CHECK_DEADLOCK FALSE
