SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Widths = {0, 3, 5}
  Hyphens = {1}
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
