CONSTANTS N = 3
 PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvNames InvOrder InvLangs InvPreferred InvFamily InvFull InvMetrics
CHECK_DEADLOCK FALSE
