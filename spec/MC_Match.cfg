CONSTANTS PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvClosest InvStrong InvPerm InvTrim InvRender
CHECK_DEADLOCK FALSE
