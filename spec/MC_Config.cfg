CONSTANTS Depth = 4 PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvAccepted InvOnly InvMono
CHECK_DEADLOCK FALSE
