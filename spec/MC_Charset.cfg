CONSTANTS Chars = {1, 2, 257, 513}
 Depth = 6
 PrintHist = FALSE
 PageSize = 256
SPECIFICATION Spec
VIEW View
INVARIANTS InvAbs InvSubset InvEqual InvUnion InvMinus
CHECK_DEADLOCK FALSE
