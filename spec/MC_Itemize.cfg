SPECIFICATION Spec
CONSTANTS
  Len0 = 4
  Chars0 = {"a", "B", "alef", "sp", "op", "cl", "tab", "no", "third", "han"}
  AttrSets = {0, 1}
  Gravs = {0, 1}
  PrintHist = FALSE
INVARIANTS Inv InvPairs
CHECK_DEADLOCK FALSE
