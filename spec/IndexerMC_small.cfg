SPECIFICATION Spec
CONSTANTS
  Queries = {q1}
  MaxSignals = 2
  MCK = 2
  Moves = 2
  Stops = 0
  Faults = 0
  Files = 3
  FirstTip = 3
  UseWriter = FALSE
INVARIANTS ViewsCorrect StoreIsChain DiskComplete StoreBehind NeverBlocked DeadOnlyDeep
PROPERTIES AnswersCorrect DiskGrows
CHECK_DEADLOCK FALSE
