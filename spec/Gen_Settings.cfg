SPECIFICATION Spec
CONSTANTS
  Depth = 3
  PrintHist = TRUE
INVARIANTS Emit
VIEW View
CHECK_DEADLOCK FALSE
