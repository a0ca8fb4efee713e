CONSTANTS PrintHist = FALSE
 N = 5
 Symbols = {"L", "R", "EN", "CS", "NSM", "RLE", "PDF", "RLI", "PDI", "WS", "(", ")"}
SPECIFICATION Spec
INVARIANTS Inv InvSequences
CHECK_DEADLOCK FALSE
