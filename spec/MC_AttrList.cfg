SPECIFICATION Spec
CONSTANTS
  Kinds = {"weight", "family"}
  Vals = {0, 1}
  MaxPos = 4
  Depth = 4
  PrintHist = FALSE
  WithInsert = TRUE
VIEW View
INVARIANTS InvOrdered InvDisjoint InvOverlay
CHECK_DEADLOCK FALSE
