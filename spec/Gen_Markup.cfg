SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  PrintHist = TRUE
CHECK_DEADLOCK FALSE
