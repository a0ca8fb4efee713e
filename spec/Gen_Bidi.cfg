CONSTANTS PrintHist = TRUE
 N = 3
 Symbols = {"L", "R", "AL", "EN", "AN", "CS", "ES", "ET", "ON", "NSM", "RLE", "LRE", "LRO", "RLO", "PDF", "RLI", "LRI", "FSI", "PDI", "WS", "S", "BN", "(", ")"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
