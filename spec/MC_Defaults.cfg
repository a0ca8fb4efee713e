CONSTANTS PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvKeep InvAll InvIdem
CHECK_DEADLOCK FALSE
