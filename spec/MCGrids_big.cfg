SPECIFICATION Spec
CONSTANTS MaxDim = 2 MaxLevel = 3 MaxProcs = 3
INVARIANTS ExactPartition Bijection Nested Hier
CHECK_DEADLOCK FALSE
