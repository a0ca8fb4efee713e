SPECIFICATION Spec
CONSTANTS
  MaxTokens = 5
  PrintHist = FALSE
VIEW View
INVARIANTS InvNested InvInner InvSizes InvAccel
PROPERTY Grows
CHECK_DEADLOCK FALSE
