SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxBlocks = 3
INVARIANTS OneSendsFirst WaitForOther Relayed SameSum Quiet
PROPERTY Ends
