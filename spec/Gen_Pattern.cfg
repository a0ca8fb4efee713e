CONSTANTS PrintHist = TRUE
 Depth = 4
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
