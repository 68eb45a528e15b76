SPECIFICATION Spec
CONSTANTS
  NP = 4
  MaxLen = 3
  MaxChunk = 4
INVARIANTS Added Complete OldEnd Parts
PROPERTY Progress
