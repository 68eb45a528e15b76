SPECIFICATION Spec
CONSTANTS
  MaxE = 3
  MaxN = 2
  MaxChunk = 4
INVARIANTS Exact Clean Ends
PROPERTY Progress
