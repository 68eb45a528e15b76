CONSTANTS NG = 2 NP = 2 Vals = {0, 1} Reports = 2 Collects = 1
SPECIFICATION Spec
INVARIANTS Right
