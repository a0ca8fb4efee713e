CONSTANTS PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvAll InvMore InvOwn InvPerm
CHECK_DEADLOCK FALSE
