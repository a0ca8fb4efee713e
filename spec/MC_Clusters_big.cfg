SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  MaxPart = 2
  MaxGlyphs = 1
  MaxAttrs = 2
  PrintHist = FALSE
INVARIANTS InvAt InvEnabled InvShares InvPieces InvCover
CHECK_DEADLOCK FALSE
