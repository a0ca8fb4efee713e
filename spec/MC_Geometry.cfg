SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  MaxLv = 2
  MaxLen = 2
INVARIANTS InvSide InvPlace InvBack InvEdges InvRanges InvCursors
PROPERTY Leaves
