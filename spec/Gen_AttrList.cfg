SPECIFICATION Spec
CONSTANTS
  Kinds = {"weight"}
  Vals = {0, 1}
  MaxPos = 4
  Depth = 3
  PrintHist = TRUE
  WithInsert = FALSE
INVARIANTS InvOrdered Emit
CHECK_DEADLOCK FALSE
