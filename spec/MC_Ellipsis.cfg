SPECIFICATION Spec
CONSTANTS
  MaxClusters = 4
  Widths = {0, 1, 2}
  EW = 1
  EWide = 2
  PrintHist = FALSE
INVARIANTS InvCuts InvCenter InvSide InvFits InvWidth InvLongest InvNear InvGaps
PROPERTY Ends
CHECK_DEADLOCK FALSE
