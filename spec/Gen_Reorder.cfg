CONSTANTS PrintHist = TRUE
 N = 4
 LevelSet = {0, 1, 2}
 Symbols = {"R", "NSM", "WS", "PDI"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
