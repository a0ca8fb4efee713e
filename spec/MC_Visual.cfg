CONSTANTS PrintHist = FALSE
 N = 4
SPECIFICATION Spec
INVARIANTS InvJoin InvTransparent InvAllowed
CHECK_DEADLOCK FALSE
