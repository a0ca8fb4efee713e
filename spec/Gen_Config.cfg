CONSTANTS Depth = 3 PrintHist = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
