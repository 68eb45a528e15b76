SPECIFICATION Spec
CONSTANTS
  NS = 3
  Subs = {1, 2, 3}
  NSteps = 4
  NNames = 2
  Parts = 2
INVARIANTS Agree Whole Complete Safe Clean

