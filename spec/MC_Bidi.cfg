CONSTANTS PrintHist = FALSE
 N = 4
 Symbols = {"L", "R", "AL", "EN", "CS", "ON", "NSM", "RLE", "LRO", "PDF", "RLI", "FSI", "PDI", "WS", "BN", "(", ")"}
SPECIFICATION Spec
INVARIANTS Inv InvSequences
CHECK_DEADLOCK FALSE
