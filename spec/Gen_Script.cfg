SPECIFICATION Spec
CONSTANTS
  Len0 = 5
  Chars0 = {"a", "alef", "com", "op", "cl", "op2", "cl2"}
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
