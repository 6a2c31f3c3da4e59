SPECIFICATION Spec
CONSTANTS
  Queries = {q1, q2}
  MaxSignals = 2
  MCK = 2
  Moves = 3
  Stops = 1
  Faults = 0
  Files = 3
  FirstTip = 3
  UseWriter = TRUE
INVARIANTS ViewsCorrect StoreIsChain DiskComplete StoreBehind NeverBlocked DeadOnlyDeep
PROPERTIES AnswersCorrect DiskGrows Refines
CHECK_DEADLOCK FALSE
