"""C07 reduction of subspaces between process groups"""
from vf import *
LEVEL = "model_checking"
def run(c):
    c.build(["h_reduce"])
    c.model("MCReduce", "MCReduce.cfg", need_actions=("Take", "Arrive", "Leave", "Complete"))
    c.model("MCReduce", "MCReduce_thr.cfg")
    if c.thorough:
        c.model("MCReduce", "MCReduce_big.cfg", timeout=2000)
        c.model("MCReduce", "MCReduce_thr4.cfg", timeout=3000)
    c.assumptions += ["every process holds at least one point", "with the out-group variants every group shares some subspace with another group",
                      "groups that have points of a subspace at the same position have equally many"]
    k = 8 if c.thorough else 1
    for n, th in ((6, 1), (8, 2), (10, 1), (4, 2), (3, 1)):
        if not c.replay(n, "h_reduce", dict(seed=c.seed * 10 + n, n=120 * k, big=12 * k), "TrReduce", "reduction between groups, %d processes" % n, label="%d processes" % n, timeout=150 * (4 if c.thorough else 1), env=dict(OMP_NUM_THREADS=th)): return
    # more groups than bits in a word
    for n, m in ((34, 14), (66, 14)):
        if not c.replay(n, "h_reduce", dict(seed=c.seed * 10 + n, n=m * k), "TrReduce", "reduction between groups, %d processes" % n, label="%d processes" % n, timeout=200 * (4 if c.thorough else 1)): return
