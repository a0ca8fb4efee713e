SPECIFICATION Spec
CONSTANTS
  Depth = 3
  PrintHist = TRUE
CHECK_DEADLOCK FALSE
