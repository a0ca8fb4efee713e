CONSTANTS PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvFired InvOther InvNotFired InvAssignReplace InvDeleteAll InvGrow InvEnds InvSame
CHECK_DEADLOCK FALSE
