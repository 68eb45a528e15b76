CONSTANTS NG = 3 NS = 3 MaxSize = 1 Limits = {1, 3} Threads = 1 Variants = {"sg", "sub", "out", "chunk"}
SPECIFICATION Spec
INVARIANTS Correct NoNewData SameContent ChunksOk Disjoint
