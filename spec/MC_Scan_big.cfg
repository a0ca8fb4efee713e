CONSTANTS PrintHist = FALSE Big = TRUE
SPECIFICATION Spec
INVARIANTS InvOnce InvOrder InvAll InvAccept InvReject InvWins InvTop
CHECK_DEADLOCK FALSE
