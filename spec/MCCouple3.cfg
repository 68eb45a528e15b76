SPECIFICATION Spec
CONSTANTS
  NS = 3
  Subs = {1, 2}
  NSteps = 2
  NNames = 2
  Parts = 1
INVARIANTS Agree Whole Complete Safe Clean

