SPECIFICATION Spec
CONSTANTS
  MaxL = 1
  Dim = 2
  MaxP = 2
  Extra = 1
INVARIANTS PartsAdd ExactAtPoints Constants Periodic Zero Volume MaxBound
CHECK_DEADLOCK FALSE
