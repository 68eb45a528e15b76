SPECIFICATION Spec
CONSTANTS T = 4
 G = 3
 D = 3
 Noise = FALSE
 Imb = 110
PROPERTIES Improves KeepsGroups OnlyUsed
INVARIANT PlanDefined
CHECK_DEADLOCK FALSE
