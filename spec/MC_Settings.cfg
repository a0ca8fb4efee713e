SPECIFICATION Spec
CONSTANTS
  Depth = 8
  PrintHist = FALSE
INVARIANTS InvKept
VIEW View
CHECK_DEADLOCK FALSE
