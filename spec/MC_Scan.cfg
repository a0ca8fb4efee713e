CONSTANTS PrintHist = FALSE Big = FALSE
SPECIFICATION Spec
INVARIANTS InvOnce InvOrder InvAll InvAccept InvReject InvWins InvTop
CHECK_DEADLOCK FALSE
