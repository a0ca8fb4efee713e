SPECIFICATION Spec
CONSTANTS
  TextLen = 6
  RunsLen = 6
  MaxLevel = 4
  MaxRun = 1
  PrintHist = FALSE
INVARIANTS InvParas InvCover InvOrder InvWalk
CHECK_DEADLOCK FALSE
