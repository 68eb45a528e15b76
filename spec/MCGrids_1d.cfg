SPECIFICATION Spec
CONSTANTS MaxDim = 1 MaxLevel = 4 MaxProcs = 4
INVARIANTS ExactPartition Bijection Nested Hier
CHECK_DEADLOCK FALSE
