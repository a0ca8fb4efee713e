SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  MaxPart = 2
  MaxGlyphs = 2
  MaxAttrs = 1
  PrintHist = FALSE
INVARIANTS InvAt InvEnabled InvShares InvPieces InvCover
CHECK_DEADLOCK FALSE
