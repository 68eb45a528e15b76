"""C01 whole combination steps"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_combine"])
    k = 10 if c.thorough else 1
    for n in (8, 6, 4, 3, 1):
        if not c.replay(n, "h_combine", dict(seed=c.seed * 10 + n, n=60 * k), "TrCombine", "combination steps on %d processes" % n, label="%d processes" % n, timeout=150 * k): return
    # so much data that the reduction works in several chunks
    for n, m in ((4, 14), (2, 8), (3, 6)):
        if not c.replay(n, "h_combine", dict(seed=c.seed * 10 + n, n=0, big=m * k), "TrCombine", "combination of large grids on %d processes" % n, label="large grids, %d processes" % n, timeout=100 * k, env=dict(OMP_NUM_THREADS=1)): return
