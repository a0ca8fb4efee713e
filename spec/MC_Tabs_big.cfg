SPECIFICATION Spec
CONSTANTS
  Len0 = 7
  Tokens = {"tab", "a", "b", "c", "d"}
  PrintHist = FALSE
INVARIANTS InvFill InvCur InvPositive InvAt InvStops
CHECK_DEADLOCK FALSE
