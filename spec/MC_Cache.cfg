CONSTANTS Depth = 5 PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvSaved InvLoad InvNone
CHECK_DEADLOCK FALSE
