SPECIFICATION Spec
CONSTANTS
  NP = 3
  MaxLen = 2
  MaxChunk = 3
INVARIANTS Added Complete OldEnd Parts
PROPERTY Progress
