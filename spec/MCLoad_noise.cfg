SPECIFICATION Spec
CONSTANTS T = 3
 G = 2
 D = 2
 Noise = TRUE
 Imb = 110
PROPERTIES Improves KeepsGroups OnlyUsed
INVARIANT PlanDefined
CHECK_DEADLOCK FALSE
