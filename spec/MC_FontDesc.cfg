SPECIFICATION Spec
CONSTANTS
  Depth = 4
  PrintHist = FALSE
VIEW View
INVARIANTS InvRoundTrip InvUnset InvMerge
CHECK_DEADLOCK FALSE
