SPECIFICATION Spec
CONSTANTS MaxDim = 4
 MaxDiff = 3
 MaxMin = 2
INVARIANTS ClassOk AdaptOk
CHECK_DEADLOCK FALSE
