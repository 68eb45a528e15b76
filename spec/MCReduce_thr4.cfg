CONSTANTS NG = 3 NS = 4 MaxSize = 1 Limits = {1, 9} Threads = 2 Variants = {"sub"}
SPECIFICATION Spec
INVARIANTS Correct SameContent
