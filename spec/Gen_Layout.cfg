SPECIFICATION Spec
CONSTANTS
  TextLen = 3
  RunsLen = 0
  MaxLevel = 0
  MaxRun = 1
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
