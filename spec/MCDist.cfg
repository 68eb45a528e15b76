SPECIFICATION Spec
CONSTANTS MaxGrids = 4
 MaxGroups = 3
 MaxWeight = 3
INVARIANTS InvGreedy InvRR InvCut
CHECK_DEADLOCK FALSE
