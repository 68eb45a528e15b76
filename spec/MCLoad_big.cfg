SPECIFICATION Spec
CONSTANTS T = 5
 G = 3
 D = 4
 Noise = FALSE
 Imb = 110
PROPERTIES Improves KeepsGroups OnlyUsed
INVARIANT PlanDefined
CHECK_DEADLOCK FALSE
