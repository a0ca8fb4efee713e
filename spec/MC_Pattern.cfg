CONSTANTS PrintHist = FALSE
 Depth = 6
SPECIFICATION Spec
VIEW View
INVARIANTS InvTyped InvNonEmpty InvLookup
CHECK_DEADLOCK FALSE
