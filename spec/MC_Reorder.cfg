CONSTANTS PrintHist = FALSE
 N = 6
 LevelSet = {0, 1, 2}
 Symbols = {"R", "NSM"}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
