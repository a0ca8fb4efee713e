SPECIFICATION Spec
CONSTANTS
  MaxParts = 3
  MaxPart = 2
  MaxGlyphs = 1
  MaxAttrs = 1
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
