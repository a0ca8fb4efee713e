SPECIFICATION Spec
CONSTANTS
  Len0 = 3
  Chars0 = {"a", "B", "alef", "sp", "op", "cl", "tab", "third", "han"}
  AttrSets = {0, 1}
  Gravs = {0}
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
