SPECIFICATION Spec
CONSTANTS
  TextLen = 4
  RunsLen = 4
  MaxLevel = 3
  MaxRun = 2
  PrintHist = FALSE
INVARIANTS InvParas InvCover InvOrder InvWalk
CHECK_DEADLOCK FALSE
