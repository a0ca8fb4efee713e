SPECIFICATION Spec
CONSTANTS
  Depth = 16
  PrintHist = FALSE
INVARIANTS InvKept
VIEW View
CHECK_DEADLOCK FALSE
