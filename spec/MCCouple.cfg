SPECIFICATION Spec
CONSTANTS
  NS = 2
  Subs = {1, 2}
  NSteps = 4
  NNames = 2
  Parts = 2
INVARIANTS Agree Whole Complete Safe Clean
PROPERTY Progress
