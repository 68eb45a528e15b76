"""C11 coupling through files"""
from vf import *
LEVEL = "model_checking"
ACTS = ("WriteSizes", "SizeTok", "ReadSizes", "Run", "Write", "Tok", "Read", "RemoveTok", "RemoveFile")
def run(c):
    c.build(["h_couple"])
    c.model("MCCouple", "MCCouple.cfg", need_actions=ACTS)
    c.model("MCCouple", "MCCouple3.cfg", need_actions=ACTS)
    if c.thorough: c.model("MCCouple", "MCCouple_big.cfg", timeout=2500)
    c.assumptions += ["systems that read each other's files directly alternate between at least two file names", "one reader per exchange file"]
    k = 8 if c.thorough else 1
    for n in (6, 4, 8, 2, 3):
        if not c.replay(n, "h_couple", dict(seed=c.seed * 10 + n, n=25 * k, maxpts=250), "TrCouple", "coupling systems of %d processes through files" % n, label="coupling, %d processes" % n, timeout=120 * (5 if c.thorough else 1)): return
    # so much data that it is sent in several chunks
    for n, m in ((4, 8), (3, 5), (6, 4)):
        if not c.replay(n, "h_couple", dict(seed=c.seed * 10 + n, n=m * k, big=1), "TrCouple", "coupling systems of %d processes with large grids" % n, label="large grids, %d processes" % n, timeout=120 * (5 if c.thorough else 1), env=dict(OMP_NUM_THREADS=1)): return
