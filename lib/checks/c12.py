"""C12 exchanged subspaces"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_couple", "h_tcp", "thirdLevelManager"])
    c.model("MCCouple", "MCCouple3.cfg", need_actions=("WriteSizes", "SizeTok", "ReadSizes"))
    if c.thorough: c.model("MCCouple", "MCCouple_big.cfg", timeout=2500)
    k = 6 if c.thorough else 1
    for n in (6, 8, 4, 5, 2):
        if not c.replay(n, "h_couple", dict(seed=c.seed * 100 + n, n=40 * k, maxpts=2000, sizes=1), "TrCouple", "exchange of subspace sizes between systems of %d processes" % n, label="sizes, %d processes" % n, timeout=120 * (5 if c.thorough else 1)): return
    for i in range(6 if c.thorough else 1):
        for w, n in ((6, 20), (10, 20)):
            if not c.replay(w, "h_tcp", dict(seed=c.seed * 100 + 10 * i + w + 50, n=n, sizes=i % 2 == 0 and 1 or 0), "TrCouple", "sizes agreed through the broker", label="broker %d.%d" % (w, i), timeout=200): return
