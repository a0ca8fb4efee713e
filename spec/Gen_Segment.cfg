SPECIFICATION Spec
CONSTANTS
  Len0 = 3
  Chars0 = {97, 65, 49, 46, 33, 44, 39, 34, 41, 40, 95, 32, 10, 13, 8205, 8204, 127462, 127995, 2381, 2325, 1488, 8986, 44032, 36, 45, 1536, 3530, 3482, 12354, 12450}
  PrintHist = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
