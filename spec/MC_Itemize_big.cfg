SPECIFICATION Spec
CONSTANTS
  Len0 = 5
  Chars0 = {"a", "alef", "sp", "op", "cl", "han", "emo"}
  AttrSets = {0, 2, 3, 4}
  Gravs = {0, 1}
  PrintHist = FALSE
INVARIANTS Inv InvPairs
CHECK_DEADLOCK FALSE
