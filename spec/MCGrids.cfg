SPECIFICATION Spec
CONSTANTS MaxDim = 2 MaxLevel = 2 MaxProcs = 2
INVARIANTS ExactPartition Bijection Nested Hier
CHECK_DEADLOCK FALSE
