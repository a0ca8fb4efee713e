CONSTANTS N = 2
 PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvNames InvOrder InvLangs InvPreferred InvFamily InvFull InvMetrics
CHECK_DEADLOCK FALSE
