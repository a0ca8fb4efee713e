CONSTANTS PrintHist = FALSE
 Names = {"ab", "abx", "aby", "abxz", "abc", "fr"}
SPECIFICATION Spec
INVARIANTS InvIncl InvMono InvUnionIncl InvDist
CHECK_DEADLOCK FALSE
