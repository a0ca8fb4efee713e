SPECIFICATION Spec
CONSTANTS
  Len0 = 5
  Chars0 = {97, 65, 49, 46, 44, 39, 32, 10, 8205, 2381, 8986}
  PrintHist = FALSE
INVARIANTS InvReaders InvNested InvParagraphs InvAccent InvRanges InvTailor
CHECK_DEADLOCK FALSE
