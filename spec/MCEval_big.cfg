SPECIFICATION Spec
CONSTANTS
  MaxL = 3
  Dim = 1
  MaxP = 4
  Extra = 2
INVARIANTS PartsAdd ExactAtPoints Constants Periodic Zero Volume MaxBound
CHECK_DEADLOCK FALSE
