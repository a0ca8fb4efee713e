CONSTANTS PrintHist = TRUE
 Names = {"ab", "abx", "aby", "fr", "zhcn", "zh"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
