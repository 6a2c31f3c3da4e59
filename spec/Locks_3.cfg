SPECIFICATION Spec
CONSTANTS
  Queries = {q1, q2, q3}
  MaxSignals = 2
  SlowDisk = FALSE
  SlowNode = FALSE
  Exclusive = TRUE
INVARIANTS Sound Undisturbed
PROPERTIES Answered Updates Writes
CHECK_DEADLOCK FALSE
