SPECIFICATION Spec
CONSTANTS MaxGrids = 5
 MaxGroups = 4
 MaxWeight = 4
INVARIANTS InvGreedy InvRR InvCut
CHECK_DEADLOCK FALSE
