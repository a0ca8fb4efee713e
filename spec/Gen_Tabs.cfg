SPECIFICATION Spec
CONSTANTS
  Len0 = 4
  Tokens = {"tab", "a", "b", "c", "d"}
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
