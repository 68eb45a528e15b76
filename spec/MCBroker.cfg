SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxBlocks = 2
INVARIANTS OneSendsFirst WaitForOther Relayed SameSum Quiet
PROPERTY Ends
