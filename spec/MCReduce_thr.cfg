CONSTANTS NG = 3 NS = 3 MaxSize = 1 Limits = {9} Threads = 2 Variants = {"sub"}
SPECIFICATION Spec
INVARIANTS Correct SameContent
