CONSTANTS NG = 2 NP = 3 Vals = {0, 1} Reports = 1 Collects = 2
SPECIFICATION Spec
INVARIANTS Right
