CONSTANTS Chars = {1, 2, 257}
 Depth = 4
 PrintHist = TRUE
 PageSize = 256
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
