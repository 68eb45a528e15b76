SPECIFICATION Spec
CONSTANTS
  MaxL = 2
  Dim = 1
  MaxP = 3
  Extra = 2
INVARIANTS PartsAdd ExactAtPoints Constants Periodic Zero Volume MaxBound
CHECK_DEADLOCK FALSE
