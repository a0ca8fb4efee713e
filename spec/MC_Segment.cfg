SPECIFICATION Spec
CONSTANTS
  Len0 = 4
  Chars0 = {97, 65, 49, 46, 44, 39, 41, 32, 10, 13, 8205, 127462, 2381, 1488, 8986}
  PrintHist = FALSE
INVARIANTS InvReaders InvNested InvParagraphs InvAccent InvRanges InvTailor
CHECK_DEADLOCK FALSE
