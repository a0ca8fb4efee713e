CONSTANTS PrintHist = TRUE Big = FALSE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
