SPECIFICATION Spec
CONSTANTS
  MaxE = 8
  MaxN = 3
  MaxChunk = 9
INVARIANTS Exact Clean Ends
PROPERTY Progress
