SPECIFICATION Spec
CONSTANTS
  Queries = {}
  MaxSignals = 2
  MCK = 3
  Moves = 3
  Stops = 0
  Faults = 0
  Files = 3
  FirstTip = 3
  UseWriter = FALSE
INVARIANTS ViewsCorrect StoreIsChain DiskComplete StoreBehind NeverBlocked DeadOnlyDeep
PROPERTIES AnswersCorrect DiskGrows
CHECK_DEADLOCK FALSE
