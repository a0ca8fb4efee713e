SPECIFICATION Spec
CONSTANTS
  Len0 = 6
  Chars0 = {"a", "alef", "com", "op", "cl", "op2", "cl2"}
  PrintHist = FALSE
INVARIANTS InvRules InvRuns
CHECK_DEADLOCK FALSE
