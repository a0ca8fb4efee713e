SPECIFICATION Spec
CONSTANTS
  Depth = 2
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
