CONSTANTS Depth = 4 PrintHist = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
