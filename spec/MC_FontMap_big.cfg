SPECIFICATION Spec
CONSTANTS
  Depth = 6
  PrintHist = FALSE
VIEW View
INVARIANTS InvFresh InvSame InvShared InvMetrics InvLayout
CHECK_DEADLOCK FALSE
