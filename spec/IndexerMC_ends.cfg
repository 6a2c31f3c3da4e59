SPECIFICATION FairSpec
CONSTANTS
  Queries = {q1}
  MaxSignals = 2
  MCK = 2
  Moves = 0
  Stops = 0
  Faults = 1
  Files = 3
  FirstTip = 3
  UseWriter = TRUE

PROPERTIES Converges Persisted Ends
CHECK_DEADLOCK FALSE
