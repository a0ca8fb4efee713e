SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Widths = {0, 3, 4, 5}
  Hyphens = {1, 3}
  PrintHist = FALSE
INVARIANTS InvFill InvLong
CHECK_DEADLOCK FALSE
