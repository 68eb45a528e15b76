SPECIFICATION Spec
CONSTANTS MaxDim = 4
 MaxDiff = 4
 MaxMin = 3
INVARIANTS ClassOk AdaptOk
CHECK_DEADLOCK FALSE
