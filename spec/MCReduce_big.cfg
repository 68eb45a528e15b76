CONSTANTS NG = 3 NS = 4 MaxSize = 2 Limits = {1, 3, 4} Threads = 1 Variants = {"sg", "sub", "out", "chunk"}
SPECIFICATION Spec
INVARIANTS Correct NoNewData SameContent ChunksOk Disjoint
