SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  BatchSizes = {1, 2, 3, 100}
  Ks = {1, 2, 3}
  Layouts <- MCLayouts
  BadChoices <- MCBad
INVARIANTS Right NeverPassedOff FailsOnlyIfBad
PROPERTIES Ends
CHECK_DEADLOCK FALSE
