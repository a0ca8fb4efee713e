SPECIFICATION Spec
CONSTANTS
  MaxClusters = 3
  Widths = {0, 1, 2}
  EW = 1
  EWide = 2
  PrintHist = TRUE
CHECK_DEADLOCK FALSE
