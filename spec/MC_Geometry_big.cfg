SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  MaxLv = 2
  MaxLen = 1
INVARIANTS InvSide InvPlace InvBack InvEdges InvRanges InvCursors
PROPERTY Leaves
