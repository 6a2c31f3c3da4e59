SPECIFICATION Spec
CONSTANTS
  Queries = {q1, q2}
  MaxSignals = 2
  SlowDisk = TRUE
  SlowNode = FALSE
  Exclusive = TRUE
INVARIANTS Sound Undisturbed
PROPERTIES Answered Updates Writes
CHECK_DEADLOCK FALSE
