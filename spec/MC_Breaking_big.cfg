SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Widths = {0, 2, 4, 6}
  Hyphens = {1}
  PrintHist = FALSE
INVARIANTS InvFill InvLong
CHECK_DEADLOCK FALSE
